//! Witness crate: instantiates ikal's generic public API so that its monomorphised bodies can be
//! analysed. It is compiled (type-checked, lowered to MIR) and never run.

pub fn vevent_recurrent(x: &ikal::VEvent) -> ikal::iter::Recur<ikal::VEvent> {
    x.recurrent()
}

macro_rules! recurring {
    ($m:ident, $t:ty) => {
        pub mod $m {
            pub fn next(r: &mut ikal::iter::Recur<$t>) -> Option<$t> {
                r.next()
            }
            pub fn between(r: ikal::iter::Recur<$t>, a: ikal::Date, b: ikal::Date) -> Option<$t> {
                let mut it = r.between(a, b);
                it.next()
            }
            pub fn at(r: ikal::iter::Recur<$t>, a: ikal::Date) -> Option<$t> {
                let mut it = r.at(a);
                it.next()
            }
            pub fn after(r: ikal::iter::Recur<$t>, a: ikal::Date) -> Option<$t> {
                let mut it = r.after(a);
                it.next()
            }
            pub fn ical(x: &$t) -> ikal::Result<String> {
                ikal::ser::ical(x)
            }
        }
    };
}

recurring!(vevent, ikal::VEvent);
recurring!(vjournal, ikal::VJournal);
recurring!(vtodo, ikal::VTodo);
