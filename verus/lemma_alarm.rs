// Alarms: triggers, durations, what an alarm holds.
pub mod lemma_alarm {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::model::*;
#[allow(unused_imports)] use crate::properties::*;
#[allow(unused_imports)] use crate::components::*;
#[allow(unused_imports)] use crate::components::alarm::properties::*;
#[allow(unused_imports)] use crate::value_types::ValueType;

/// the duration a text stands for: a sign, then ISO 8601
pub open spec fn dur_of(s: Seq<char>) -> Option<Duration> {
    if s.len() > 0 && s[0] == '-' { match dur_abs(s.skip(1)) { Some(d) => Some(dur(-d.ns())), None => None } }
    else if s.len() > 0 && s[0] == '+' { dur_abs(s.skip(1)) }
    else { dur_abs(s) }
}
/// durations this crate can write and read
pub open spec fn dur_ok(d: Duration) -> bool {
    d.ns() % 1_000_000 == 0 && -4_294_967_296_000_000_000 < d.ns() < 4_294_967_296_000_000_000
}
/// C10: a duration reads back as the value that was written
pub proof fn lemma_dur(d: Duration)
    requires dur_ok(d)
    ensures dur_of(d.disp()) == Some(d)
{
    if d.ns() >= 0 {
        axiom_dur(d);
        assert(d.disp()[0] == 'P');
    } else {
        let n = dur(-d.ns());
        axiom_dur_ns(n.ns(), d); axiom_dur_ns(-d.ns(), d);
        axiom_dur(n);
        axiom_dur_neg(d);
        assert(d.disp() =~= seq!['-'] + n.disp());
        assert(d.disp().skip(1) =~= n.disp());
        axiom_dur_ns(d.ns(), d);
    }
}

pub ghost enum TrigV { Dur(Duration, Option<Related>), At(DptV) }
pub open spec fn tv(t: Trigger) -> TrigV {
    match t { Trigger::Duration(d, r) => TrigV::Dur(d, r), Trigger::DateTime(c) => TrigV::At(cv(c)) }
}
pub open spec fn rel_name(r: Related) -> Seq<char> { match r { Related::Start => "START"@, Related::End => "END"@ } }
pub open spec fn rel_of(s: Seq<char>) -> Option<Related> {
    if s == "START"@ { Some(Related::Start) } else if s == "END"@ { Some(Related::End) } else { None }
}
/// the property that states a trigger
pub open spec fn trig_prop(t: TrigV) -> PropV {
    match t {
        TrigV::Dur(d, None) => prop0("TRIGGER"@, d.disp()),
        TrigV::Dur(d, Some(r)) => PropV { key: "TRIGGER"@, val: d.disp(), params: par1("RELATED"@, rel_name(r)) },
        TrigV::At(c) => { let p = dpt_prop(c, "TRIGGER"@);
            PropV { params: p.params.insert("VALUE"@, ParV { key: "VALUE"@, val: "DATE-TIME"@ }), ..p } }
    }
}
/// the trigger that a property states
pub open spec fn trig_of(p: PropV) -> Option<TrigV> {
    let typed = p.params.dom().contains("VALUE"@);
    if p.key != "TRIGGER"@ { None }
    else if typed && p.params["VALUE"@].val == "DATE-TIME"@ { match cdt_of(p) { Some(c) => Some(TrigV::At(c)), None => None } }
    else if !typed || p.params["VALUE"@].val == "DURATION"@ {
        match dur_of(p.val) {
            Some(d) => Some(TrigV::Dur(d, if p.params.dom().contains("RELATED"@) { rel_of(p.params["RELATED"@].val) } else { None })),
            None => None,
        }
    } else { None }
}
pub open spec fn trig_ok(t: TrigV) -> bool {
    match t { TrigV::Dur(d, _) => dur_ok(d), TrigV::At(c) => dpt_ok(c) && !(c is Date) }
}
/// C10: a trigger reads back as the value that was set
pub proof fn lemma_trigger(t: TrigV)
    requires trig_ok(t)
    ensures trig_of(trig_prop(t)) == Some(t)
{
    lits!("TRIGGER", "VALUE", "DATE-TIME", "DURATION", "RELATED", "START", "END", "TZID");
    let p = trig_prop(t);
    match t {
        TrigV::Dur(d, r) => {
            lemma_dur(d);
            assert(!p.params.dom().contains("VALUE"@));
        }
        TrigV::At(c) => {
            assert(p.params["VALUE"@].val == "DATE-TIME"@);
            match c {
                DptV::Floating(t) => { axiom_ndt(t); }
                DptV::Utc(t) => { axiom_utc(t); axiom_ndt(utc_naive(t)); }
                DptV::Zoned(t, tz) => { axiom_ndt(t); assert(p.params["TZID"@].val == tz); }
                DptV::Date(t) => {}
            }
        }
    }
}
/// the properties of a component
pub open spec fn pvs(c: InnerComponent) -> Map<Seq<char>, PropV> { c.properties@.map_values(|p: Property| p.v()) }
/// c holds the properties m, and nothing else
pub open spec fn holds(c: InnerComponent, m: Map<Seq<char>, PropV>) -> bool {
    pvs(c) =~= m && c.multi_properties@ == Map::<Seq<char>, Vec<Property>>::empty() && c.components@ == Seq::<Other>::empty()
}
pub broadcast proof fn lemma_holds_empty(c: InnerComponent)
    ensures #[trigger] is_empty_ic(c) ==> holds(c, Map::empty())
{ if is_empty_ic(c) { assert(pvs(c) =~= Map::<Seq<char>, PropV>::empty()); } }
pub broadcast proof fn lemma_holds_put(o: InnerComponent, n: InnerComponent, p: Property)
    ensures #[trigger] put1(o, n, p) ==> pvs(n) == pvs(o).insert(p.v().key, p.v()) && n.multi_properties == o.multi_properties && n.components == o.components
{ if put1(o, n, p) { assert(pvs(n) =~= pvs(o).insert(p.v().key, p.v())); } }
pub open spec fn action_prop(a: Seq<char>) -> PropV { prop0("ACTION"@, a) }
pub open spec fn action_name(a: Action) -> Seq<char> {
    match a { Action::Audio => "AUDIO"@, Action::Email => "EMAIL"@, Action::Display => "DISPLAY"@, Action::Other(s) => s@ }
}
pub open spec fn with(m: Map<Seq<char>, PropV>, p: PropV) -> Map<Seq<char>, PropV> { m.insert(p.key, p) }
/// the properties of an alarm made by audio, display or email
pub open spec fn alarm_props(a: Seq<char>, t: TrigV) -> Map<Seq<char>, PropV> { with(with(Map::empty(), action_prop(a)), trig_prop(t)) }
/// the properties of an alarm have different names: the order in which they are set does not matter
pub proof fn lemma_alarm_keys()
    ensures "ACTION"@ != "TRIGGER"@, "ACTION"@ != "DESCRIPTION"@, "ACTION"@ != "SUMMARY"@, "TRIGGER"@ != "DESCRIPTION"@, "TRIGGER"@ != "SUMMARY"@,
        "DESCRIPTION"@ != "SUMMARY"@, "DURATION"@ != "REPEAT"@, "DTSTART"@ != "DTEND"@, forall|t: TrigV| (#[trigger] trig_prop(t)).key == "TRIGGER"@
{ lits!("ACTION", "TRIGGER", "DESCRIPTION", "SUMMARY", "DURATION", "REPEAT", "DTSTART", "DTEND"); }
} // mod lemma_alarm
