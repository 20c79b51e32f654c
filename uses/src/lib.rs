//! Uses of kameo's macros: what they generate here is put under contract (contracts/generated.py) and run (replay-remote, C23).
#![allow(dead_code)]

pub mod derives {
    use kameo::{Actor, RemoteActor, Reply};

    #[derive(Actor, RemoteActor)]
    pub struct Plain;

    #[derive(Actor, RemoteActor)]
    #[actor(name = "named otherwise")]
    #[remote_actor(id = "reached otherwise")]
    pub enum Named {
        On(u8),
        Off { since: u64 },
    }

    #[derive(Actor)]
    pub struct Generic<T: Send + 'static, const N: usize>(pub [T; N]);

    #[derive(Actor)]
    #[actor(name = "generic otherwise")]
    pub struct Bounded<T>(pub T)
    where
        T: Clone + Send + 'static;

    #[derive(Reply, Debug, PartialEq)]
    pub struct Answer {
        pub yes: bool,
        pub why: String,
    }

    #[derive(Reply, Debug, PartialEq)]
    pub enum Either<A: Send + 'static, B>
    where
        B: Send + 'static,
    {
        Left(A),
        Right(B),
    }
}

pub mod msgs {
    use kameo::{messages, Actor};

    #[derive(Actor, Default)]
    pub struct Desk {
        pub log: Vec<String>,
    }

    pub trait Unrelated {
        fn unrelated(&self) -> u8;
    }
    impl Unrelated for Desk {
        fn unrelated(&self) -> u8 {
            1
        }
    }

    #[messages]
    impl Desk {
        pub fn not_a_message(&mut self, a: u8) -> u8 {
            a
        }

        /// nothing in, nothing out
        #[message]
        pub fn ring(&mut self) {
            self.log.push("ring".into());
        }

        #[message]
        pub fn count(&self) -> usize {
            self.log.len()
        }

        /// one argument
        #[message]
        pub fn note(&mut self, text: String) -> usize {
            self.log.push(text);
            self.log.len()
        }

        /// several of one type: which is which is all in the names
        #[message(derive(Clone, Copy, Debug, PartialEq))]
        pub fn weigh(
            &self,
            /// the first
            first: i64,
            second: i64,
            /// the third
            third: i64,
            fourth: i64,
        ) -> i64 {
            first * 1000 + second * 100 + third * 10 + fourth
        }

        #[message]
        #[allow(clippy::too_many_arguments)]
        pub fn many(&mut self, zulu: u8, yankee: u8, alpha: u8, mike: u8, lima: u8, bravo: u8, kilo: u8, tango: u8, delta: u8, xray: u8, echo: u8, papa: u8) -> [u8; 12] {
            [zulu, yankee, alpha, mike, lima, bravo, kilo, tango, delta, xray, echo, papa]
        }

        #[message]
        #[allow(clippy::too_many_arguments)]
        pub async fn many_later(&self, mike: u8, zulu: u8, alpha: u8, tango: u8, bravo: u8, lima: u8, kilo: u8) -> [u8; 7] {
            [mike, zulu, alpha, tango, bravo, lima, kilo]
        }

        #[inline]
        #[message(derive(Clone), derive(Debug))]
        #[must_use]
        pub async fn later(&mut self, name: String, delay: u64) -> Result<(String, u64), u64> {
            self.log.push(name.clone());
            if delay > 10 {
                Err(delay)
            } else {
                Ok((name, delay))
            }
        }

        #[message]
        pub async fn soon(&self) {}

        #[message]
        async fn own(&mut self, mut msg: u8, ctx: u8) -> u8 {
            msg += ctx;
            msg
        }

        #[message]
        pub(crate) fn within(&self, left: (u8, u8), right: (u8, u8)) -> Option<(u8, u8)> {
            if left == right {
                None
            } else {
                Some((left.0, right.1))
            }
        }

        pub fn neither(&self) {}

        #[message]
        pub fn typed<T: Into<u64> + Send + 'static>(&self, one: T, two: T) -> u64 {
            one.into() * 10 + two.into()
        }

        #[message]
        pub fn bound<T>(&self, one: T, two: u64) -> u64
        where
            T: Into<u64> + Send + 'static,
        {
            one.into() * 10 + two
        }

        #[message]
        pub fn last_one(&mut self, left: Vec<u8>, right: Vec<u8>) -> Vec<u8> {
            left.into_iter().chain(right).collect()
        }
    }

    #[derive(Actor)]
    pub struct Shelf<A: Send + 'static, B: Send + 'static> {
        pub a: Vec<A>,
        pub b: Vec<B>,
    }

    #[messages]
    impl<A: Send + 'static, B: Send + 'static> Shelf<A, B> {
        #[message]
        pub fn put_a(&mut self, item: A) -> usize {
            self.a.push(item);
            self.a.len()
        }

        #[message]
        pub fn put_both(&mut self, b: B, a: A) -> usize {
            self.a.push(a);
            self.b.push(b);
            self.a.len() + self.b.len()
        }

        #[message]
        pub fn put_many(&mut self, two: B, one: A, four: B, three: A, six: A, five: B) -> Vec<usize> {
            self.a.extend([one, three, six]);
            self.b.extend([two, four, five]);
            vec![self.a.len(), self.b.len()]
        }

        #[message]
        pub async fn size(&mut self, of_a: bool, of_b: bool) -> usize {
            of_a as usize * self.a.len() + of_b as usize * self.b.len()
        }
    }

    /// its messages come back as they are
    #[derive(Actor)]
    pub struct Echo<R: kameo::Reply + Clone + Send + Sync + 'static>(pub R);

    #[messages]
    impl<R: kameo::Reply + Clone + Send + Sync + 'static> Echo<R> {
        #[message]
        pub fn get(&self) -> R {
            self.0.clone()
        }

        #[message]
        pub fn pick(&mut self, keep: bool, other: R) -> R {
            if keep {
                self.0.clone()
            } else {
                other
            }
        }

        #[message]
        pub async fn nth(&self, n: usize, of: u8) -> R {
            let _ = (n, of);
            self.0.clone()
        }

        #[message]
        pub fn first(&mut self, of: Vec<R>, or: Option<R>) -> Option<u8> {
            let n = of.len();
            self.0 = of.into_iter().next().or(or)?;
            Some(n as u8)
        }
    }

    /// messages that only this module may send
    pub async fn own(r: &kameo::actor::ActorRef<Desk>, msg: u8, ctx: u8) -> u8 {
        r.ask(Own { msg, ctx }).await.unwrap()
    }
    pub async fn within(r: &kameo::actor::ActorRef<Desk>, left: (u8, u8), right: (u8, u8)) -> Option<(u8, u8)> {
        r.ask(Within { left, right }).await.unwrap()
    }
}

/// one registration per module: the tables are statics without a name of their own
pub mod actor_table {
    use kameo::{Actor, RemoteActor};

    #[derive(Actor, RemoteActor)]
    pub struct Door(pub u64);
}

pub mod other_actor_table {
    use kameo::{Actor, RemoteActor};

    #[derive(Actor, RemoteActor)]
    #[remote_actor(id = "the window")]
    pub struct Window(pub u64);
}

pub mod message_table {
    use super::actor_table::Door;
    use kameo::{
        message::{Context, Message},
        remote_message,
    };

    #[derive(serde::Serialize, serde::Deserialize)]
    pub struct Open {
        pub by: u64,
    }

    #[remote_message("open the door")]
    impl Message<Open> for Door {
        type Reply = u64;

        async fn handle(&mut self, msg: Open, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
            self.0 += msg.by;
            self.0
        }
    }
}

pub mod other_message_table {
    use super::other_actor_table::Window;
    use kameo::{
        message::{Context, Message},
        remote_message,
    };

    #[derive(serde::Serialize, serde::Deserialize)]
    pub struct Open(pub u64);

    #[remote_message("open the window")]
    impl Message<Open> for Window {
        type Reply = Result<u64, String>;

        async fn handle(&mut self, msg: Open, _: &mut Context<Self, Self::Reply>) -> Self::Reply {
            self.0 += msg.0;
            Ok(self.0)
        }
    }
}
