//! S06: failing stores and failing user functions.
use crate::c_attach::*;
use crate::core::*;
use crate::eng_attach::*;
use crate::profiles::*;
use crate::refmodel as rm;
use crate::refmodel::{Join, JOINS};
use crate::stores::*;
use crate::tree::*;
use radixdb::node::{DetachConverter, IdentityConverter, Value};
use radixdb::store::DynBlobStore;
use radixdb::RadixTree;
use std::cell::RefCell;
use std::sync::Arc;

/// what a query gives
#[derive(PartialEq, Debug)]
enum Out {
    Bool(bool),
    Val(Option<Vec<u8>>),
    Entry(Option<(Vec<u8>, Vec<u8>)>),
    Entries(Es),
    Groups(Vec<Es>),
}
/// the trees are read after the failure has gone
enum Raw {
    Out(Out),
    Dt(DT),
    Mem(RadixTree),
    Groups(Vec<DT>),
    /// an iteration: what came before the error
    Partial(Es, Option<anyhow::Error>),
}
fn load(v: Option<Value<DynBlobStore>>, st: &DynBlobStore) -> anyhow::Result<Option<Vec<u8>>> {
    v.map(|v| v.load(st).map(|x| x.to_vec())).transpose()
}
#[derive(Clone, Debug)]
enum Q {
    Get(usize),
    Contains(usize),
    HasPrefix(usize),
    Scan(usize),
    Filter(usize, usize),
    Iter,
    Values,
    FirstValue,
    LastValue,
    FirstEntry,
    LastEntry,
    Group(usize),
    Detach,
    Attach,
    Prefix,
}
fn iterate(mut it: impl Iterator<Item = anyhow::Result<(Vec<u8>, Value<DynBlobStore>)>>, st: &DynBlobStore) -> R<Raw> {
    let mut es: Es = vec![];
    loop {
        match it.next() {
            None => return Ok(Raw::Partial(es, None)),
            Some(Ok((k, v))) => match v.load(st) {
                Ok(x) => es.push((k, x.to_vec())),
                Err(e) => return Ok(Raw::Partial(es, Some(e))),
            },
            Some(Err(e)) => {
                for _ in 0..3 {
                    ensure!(it.next().is_none(), "an iterator goes on after it reported an error");
                }
                return Ok(Raw::Partial(es, Some(e)));
            }
        }
    }
}
fn query(q: &Q, t: &DT, probes: &[Vec<u8>], other: &DynBlobStore) -> R<anyhow::Result<Raw>> {
    let st = RadixTree::store(t).clone();
    let subst = [vec![], v("s"), val(130, b's')];
    Ok(match q {
        Q::Scan(i) => match t.try_scan_prefix(&probes[*i]) {
            Ok(it) => Ok(iterate(it.map(|x| x.map(|(k, v)| (k.to_vec(), v))), &st)?),
            Err(e) => Err(e),
        },
        Q::Iter => Ok(iterate(t.try_iter().map(|x| x.map(|(k, v)| (k.to_vec(), v))), &st)?),
        Q::Values => Ok(iterate(t.try_values().map(|x| x.map(|v| (vec![], v))), &st)?),
        Q::Group(kind) => {
            let mut it = t.try_group_by(|p, _| {
                fault_point("the descend function")?;
                Ok(match kind {
                    0 => true,
                    1 => false,
                    _ => p.len() < 2,
                })
            });
            let mut gs = vec![];
            loop {
                match it.next() {
                    None => break Ok(Raw::Groups(gs)),
                    Some(Ok(g)) => gs.push(g),
                    Some(Err(e)) => {
                        for _ in 0..3 {
                            ensure!(it.next().is_none(), "group_by goes on after it reported an error");
                        }
                        break Err(e);
                    }
                }
            }
        }
        q => (|| {
            Ok(match q {
                Q::Get(i) => Raw::Out(Out::Val(load(t.try_get(&probes[*i])?, &st)?)),
                Q::Contains(i) => Raw::Out(Out::Bool(t.try_contains_key(&probes[*i])?)),
                Q::HasPrefix(i) => Raw::Out(Out::Bool(t.try_has_prefix(&probes[*i])?)),
                Q::Filter(i, s) => Raw::Dt(t.try_filter_prefix(&probes[*i], &subst[*s])?),
                Q::FirstValue => Raw::Out(Out::Val(load(t.try_first_value()?, &st)?)),
                Q::LastValue => Raw::Out(Out::Val(load(t.try_last_value()?, &st)?)),
                Q::FirstEntry => Raw::Out(Out::Entry(match t.try_first_entry(b"lead".to_vec())? {
                    None => None,
                    Some((k, v)) => Some((k, load(Some(v), &st)?.unwrap())),
                })),
                Q::LastEntry => Raw::Out(Out::Entry(match t.try_last_entry(b"lead".to_vec())? {
                    None => None,
                    Some((k, v)) => Some((k, load(Some(v), &st)?.unwrap())),
                })),
                Q::Detach => Raw::Mem(t.try_detached()?),
                Q::Attach => {
                    // to another failing store and written there
                    let d = t.try_detached()?;
                    let mut a = d.try_attached(other.clone())?;
                    a.try_reattach()?;
                    Raw::Dt(a)
                }
                Q::Prefix => Raw::Out(Out::Val(Some(t.prefix().to_owned().load(&st)?.to_vec()))),
                _ => unreachable!(),
            })
        })(),
    })
}
fn settle(r: Raw) -> R<Out> {
    let es = |t: &DT| g_entries(t).map_err(|e| Viol { what: format!("the resulting tree: {e}") });
    Ok(match r {
        Raw::Out(o) => o,
        Raw::Dt(t) => Out::Entries(es(&t)?),
        Raw::Mem(t) => Out::Entries(t.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect()),
        Raw::Groups(g) => Out::Groups(g.iter().map(es).collect::<R<_>>()?),
        Raw::Partial(es, None) => Out::Entries(es),
        Raw::Partial(_, Some(e)) => return viol(format!("an iteration fails without a failure of the store: {e:?}")),
    })
}
/// one query with every fault
fn query_faults(q: &Q, t: &DT, probes: &[Vec<u8>], other: &DynBlobStore, ctx: &mut Ctx) -> R<()> {
    plan(u64::MAX, false);
    let r = query(q, t, probes, other);
    let (n, _) = plan_end();
    let want = match r? {
        Ok(x) => settle(x)?,
        Err(e) => return viol(format!("{q:?} fails without a failure of the store: {e:?}")),
    };
    ctx.evals += 1;
    for k in 0..n {
        for perm in [false, true] {
            ctx.transitions += 1;
            ctx.nontrivial += 1;
            let what = || format!("{q:?}{} with failing call {k}{}", probe(q, probes), if perm { " and all later ones" } else { "" });
            guarded(what, || {
                plan(k, perm);
                let r = catch(|| query(q, t, probes, other));
                plan_end();
                match r {
                    Err(p) => viol(p),
                    Ok(Err(v)) => Err(v),
                    Ok(Ok(Err(_))) => Ok(()),
                    Ok(Ok(Ok(Raw::Partial(es, Some(_))))) => match &want {
                        Out::Entries(w) if w.len() >= es.len() && w[..es.len()] == es[..] => Ok(()),
                        _ => viol(format!("wrong entries before the error: {} entries", es.len())),
                    },
                    Ok(Ok(Ok(x))) => {
                        let got = settle(x)?;
                        ensure!(got == want, "the result is {got:?} instead of {want:?} or an error");
                        Ok(())
                    }
                }
            })?;
        }
    }
    Ok(())
}
fn probe(q: &Q, probes: &[Vec<u8>]) -> String {
    match q {
        Q::Get(i) | Q::Contains(i) | Q::HasPrefix(i) | Q::Scan(i) | Q::Filter(i, _) => format!(" {}", show(&probes[*i])),
        _ => String::new(),
    }
}
fn queries(nprobes: usize) -> Vec<Q> {
    let mut r = vec![Q::Iter, Q::Values, Q::FirstValue, Q::LastValue, Q::FirstEntry, Q::LastEntry, Q::Group(0), Q::Group(1), Q::Group(2), Q::Detach, Q::Attach, Q::Prefix];
    for i in 0..nprobes {
        r.extend([Q::Get(i), Q::Contains(i), Q::HasPrefix(i), Q::Scan(i), Q::Filter(i, 0), Q::Filter(i, 1), Q::Filter(i, 2)]);
    }
    r
}
/// one modification with every fault; `mk` makes the tree that is modified
fn modify_faults(
    mk: &dyn Fn() -> R<DT>,
    op: &dyn Fn(&mut DT) -> anyhow::Result<()>,
    before: &Map,
    after: &Map,
    what: &dyn Fn() -> String,
    ctx: &mut Ctx,
) -> R<()> {
    let mut t = mk()?;
    plan(u64::MAX, false);
    let r = op(&mut t);
    let (n, _) = plan_end();
    if let Err(e) = r {
        return viol(format!("{} fails without a failure: {e:?}", what()));
    }
    for k in 0..n {
        for perm in [false, true] {
            ctx.transitions += 1;
            ctx.nontrivial += 1;
            let name = || format!("{} with failing call {k}{}", what(), if perm { " and all later ones" } else { "" });
            guarded(name, || {
                let mut t = mk()?;
                plan(k, perm);
                let r = catch(|| op(&mut t));
                plan_end();
                match r {
                    Err(p) => return viol(p),
                    Ok(Ok(())) => g_check(&t, after).map_err(|v| Viol { what: format!("success is reported, but {}", v.what) })?,
                    Ok(Err(_)) => {
                        g_check(&t, before).map_err(|v| Viol { what: format!("an error is reported, but then {}", v.what) })?;
                        ensure!(t.is_empty() == before.is_empty(), "an error is reported, but then is_empty() is {}", t.is_empty());
                        if let Err(e) = op(&mut t) {
                            return viol(format!("the second attempt fails: {e:?}"));
                        }
                        g_check(&t, after).map_err(|v| Viol { what: format!("after the second attempt {}", v.what) })?;
                    }
                }
                ctx.evals += 2;
                Ok(())
            })?;
        }
    }
    Ok(())
}
fn aop_raw(p: &Profile, t: &mut DT, o: AOp) -> anyhow::Result<()> {
    match o {
        AOp::Insert(k, v) => t.try_insert(&p.keys[k as usize], &p.vals[v as usize - 1]),
        AOp::Remove(k) => t.try_remove(&p.keys[k as usize]),
        AOp::RemovePrefix(k) => t.try_remove_prefix(&p.prefixes[k as usize]),
        AOp::Filter(k) => {
            let q = &p.prefixes[k as usize];
            *t = t.try_filter_prefix(q, q)?;
            Ok(())
        }
        AOp::Persist => t.try_reattach().map(drop),
        AOp::Reload => {
            let id = t.try_reattach()?;
            let st = RadixTree::store(t).clone();
            *t = RadixTree::try_load(st, Some(&id))?;
            Ok(())
        }
        AOp::Detach => {
            let d = t.try_detached()?;
            *t = d.try_attached(RadixTree::store(t).clone())?;
            Ok(())
        }
    }
}
fn graph(p: Profile, idlen: usize, sh: usize, n: usize, ctx: &mut Ctx) -> R<()> {
    let fs = FaultStore::new(idlen, 0x11);
    let st: DynBlobStore = fs.clone();
    let other: DynBlobStore = FaultStore::new(if idlen == 1 { 2 } else { 5 }, 0x22);
    let sts = aexplore_on(&p, st.clone(), &mut Ctx::default(), |_, _, _, _| Ok(()), |_, _| Ok(()))?;
    let nprobes = p.probes.len();
    let qs = queries(nprobes);
    for (i, s) in sts.iter().enumerate() {
        if i % n != sh {
            continue;
        }
        crate::tick();
        ctx.states += 1;
        ctx.traces += 1;
        guarded(
            || format!("after {}", ahistory(&p, &sts, i)),
            || {
                for (qi, q) in qs.iter().enumerate() {
                    // the substitutions of filter are covered in a part of the states
                    if matches!(q, Q::Filter(_, s) if *s > 0) && (i + qi) % 3 != 0 && !ctx.thorough {
                        continue;
                    }
                    query_faults(q, &s.t, &p.probes, &other, ctx)?;
                }
                for o in aops(&p) {
                    let mut after = s.m.clone();
                    step_amap(&p, &mut after, o);
                    let op = |t: &mut DT| aop_raw(&p, t, o);
                    modify_faults(&|| rebuild(&p, &st, &sts, i), &op, &s.m, &after, &|| format!("{} (unshared)", aname(&p, o)), ctx)?;
                    modify_faults(&|| Ok(s.t.clone()), &op, &s.m, &after, &|| format!("{} (of a clone)", aname(&p, o)), ctx)?;
                }
                g_check(&s.t, &s.m).map_err(|v| Viol { what: format!("the original of the modified clones: {}", v.what) })
            },
        )?;
    }
    if sh == 0 {
        ctx.sample(|| format!("after {}: every call of {} queries and {} operations fails", ahistory(&p, &sts, sts.len() / 2), qs.len(), aops(&p).len()));
    }
    Ok(())
}
const TAB: Table = b"KTDTKDT";
fn pair_ops(a: &Forms, i: usize, b: &Forms, b2: &Forms, k: usize, ctx: &mut Ctx) -> R<()> {
    let (am, bm) = (&a.sts[i].m, &b.sts[k].m);
    let (at, bt, b2t) = (&a.sts[i].t, &b.sts[k].t, &b2.sts[k].t);
    let log: Log = RefCell::new(vec![]);
    let rd = |x: &[u8], y: &[u8]| match dec(TAB, y) {
        b'K' => Some(x.to_vec()),
        b'T' => Some(y.to_vec()),
        _ => None,
    };
    let (ad, bd) = (build(am), build(bm));
    for j in JOINS {
        let want = rm::join(j, am, bm, rd);
        // functional
        type F<'a> = Box<dyn Fn() -> anyhow::Result<RadixTree> + 'a>;
        let l = &log;
        let fs: Vec<(&str, F)> = vec![
            ("attached and attached", Box::new(|| fun(j, at, bt, TAB, l))),
            ("different stores", Box::new(|| fun(j, at, b2t, TAB, l))),
            ("attached and in memory", Box::new(|| fun(j, at, &bd, TAB, l))),
            ("in memory and attached", Box::new(|| fun(j, &ad, bt, TAB, l))),
            ("both in memory, failing combiner", Box::new(|| fun(j, &ad, &bd, TAB, l))),
        ];
        for (s, f) in fs {
            plan(u64::MAX, false);
            let r = f();
            let (n, _) = plan_end();
            ensure!(r.is_ok(), "{j:?} combine, {s}: fails without a failure");
            for c in 0..n {
                for perm in [false, true] {
                    ctx.transitions += 1;
                    ctx.nontrivial += 1;
                    guarded(
                        || format!("{j:?} combine, {s}, failing call {c}{}", if perm { " and later" } else { "" }),
                        || {
                            plan(c, perm);
                            let r = catch(&f);
                            plan_end();
                            match r {
                                Err(p) => viol(p),
                                Ok(Ok(t)) => check_iter(&t, &want),
                                Ok(Err(_)) => Ok(()),
                            }
                        },
                    )?;
                }
            }
        }
        // in place
        for (s, shared) in [("unshared", false), ("clone", true)] {
            let mk = || if shared { Ok(at.clone()) } else { a.fresh(i) };
            modify_faults(&mk, &|t| inp(j, t, bt, IdentityConverter, TAB, &log), am, &want, &|| format!("{j:?} combine in place, same store, {s}"), ctx)?;
            modify_faults(&mk, &|t| inp(j, t, b2t, DetachConverter, TAB, &log), am, &want, &|| format!("{j:?} combine in place, different stores, {s}"), ctx)?;
            modify_faults(&mk, &|t| inp(j, t, &bd, DetachConverter, TAB, &log), am, &want, &|| format!("{j:?} combine in place, right in memory, {s}"), ctx)?;
        }
        log.borrow_mut().clear();
    }
    let _ = Join::Outer;
    for inner in [true, false] {
        let want = am.iter().any(|(k, _)| match bm.get(k) {
            Some(y) => dec(TAB, y) == b'T',
            None => !inner,
        });
        type P<'a> = Box<dyn Fn() -> anyhow::Result<bool> + 'a>;
        let fs: Vec<(&str, P)> = vec![
            ("attached and attached", Box::new(|| pred(inner, at, bt, TAB))),
            ("different stores", Box::new(|| pred(inner, at, b2t, TAB))),
            ("attached and in memory", Box::new(|| pred(inner, at, &bd, TAB))),
            ("in memory and attached", Box::new(|| pred(inner, &ad, bt, TAB))),
        ];
        for (s, f) in fs {
            plan(u64::MAX, false);
            let r = f();
            let (n, _) = plan_end();
            ensure!(r.is_ok(), "predicate, {s}: fails without a failure");
            for c in 0..n {
                for perm in [false, true] {
                    ctx.transitions += 1;
                    plan(c, perm);
                    let r = catch(&f);
                    plan_end();
                    match r {
                        Err(p) => return viol(format!("predicate, {s}, failing call {c}: {p}")),
                        Ok(Ok(x)) => ensure!(x == want, "{} predicate, {s}, failing call {c}: {x}", if inner { "inner" } else { "left" }),
                        Ok(Err(_)) => {}
                    }
                }
            }
        }
    }
    for keep in [true, false] {
        let want = rm::prefix_set(am, bm, keep, |y| dec(TAB, y) == b'T');
        for (s, shared) in [("unshared", false), ("clone", true)] {
            let mk = || if shared { Ok(at.clone()) } else { a.fresh(i) };
            let n = if keep { "retain" } else { "remove" };
            modify_faults(&mk, &|t| pre(keep, t, bt, TAB), am, &want, &|| format!("{n}_prefix_with, same store, {s}"), ctx)?;
            modify_faults(&mk, &|t| pre(keep, t, b2t, TAB), am, &want, &|| format!("{n}_prefix_with, different stores, {s}"), ctx)?;
            modify_faults(&mk, &|t| pre(keep, t, &bd, TAB), am, &want, &|| format!("{n}_prefix_with, right in memory, {s}"), ctx)?;
        }
    }
    Ok(())
}
pub fn s06(thorough: bool) -> Check {
    let mut units = vec![];
    for (p, idlen) in aprofiles(thorough) {
        let n = if p.nstates() > 60 { 16 } else { 4 };
        for sh in 0..n {
            let p = p.clone();
            units.push(unit(format!("graph-{}#{sh}", p.name), move |ctx| graph(p.clone(), idlen, sh, n, ctx)));
        }
    }
    for (name, keys, _) in pair_keys(thorough) {
        let n = 16;
        for sh in 0..n {
            let keys = keys.clone();
            units.push(unit(format!("pairs-{name}#{sh}"), move |ctx| {
                let x = FaultStore::new(8, 0x11);
                let y = FaultStore::new(3, 0x22);
                let per = if ctx.thorough { 5 } else { 3 };
                let a = Forms::new(&keys, true, x.clone(), per)?;
                let b = Forms::new(&keys, false, x, per)?;
                let b2 = Forms::new(&keys, false, y, per)?;
                for i in 0..a.sts.len() {
                    if i % n != sh {
                        continue;
                    }
                    for k in 0..b.sts.len() {
                        crate::tick();
                        ctx.states += 1;
                        ctx.traces += 1;
                        let (sa, sb) = (&a.sts[i], &b.sts[k]);
                        guarded(
                            || format!("left {:?} content {}, right {:?} content {}", sa.t, show_map(&sa.m), sb.t, show_map(&sb.m)),
                            || pair_ops(&a, i, &b, &b2, k, ctx),
                        )?;
                    }
                }
                for s in a.sts.iter().chain(&b.sts).chain(&b2.sts) {
                    g_check(&s.t, &s.m).map_err(|v| Viol { what: format!("an operand was changed: {}", v.what) })?;
                }
                Ok(())
            }));
        }
    }
    for kind in 0..crate::c_attach::KINDS {
        units.push(unit(format!("wide-{kind}"), move |ctx| {
            for w in [3usize, 5, 9, 16, 17, 33, 85] {
                let m = wide_content(w, kind);
                let st: DynBlobStore = FaultStore::new(8, 1);
                let other: DynBlobStore = FaultStore::new(8, 2);
                let mk = || -> R<DT> {
                    let t = attach(&build(&m), &st)?;
                    let mut t = t;
                    let id = ok("reattach", t.try_reattach())?;
                    ok("load", RadixTree::try_load(st.clone(), Some(&id)))
                };
                let t = mk()?;
                let mut probes: Vec<Vec<u8>> = vec![vec![], vec![7]];
                for i in [0, m.len() / 2, m.len() - 1] {
                    let k = m.keys().nth(i).unwrap();
                    probes.push(k.clone());
                    probes.push(k[..k.len() / 2].to_vec());
                    probes.push([&k[..], b"x"].concat());
                }
                ctx.states += 1;
                for q in queries(probes.len()) {
                    crate::tick();
                    guarded(|| format!("{w} children of kind {kind}"), || query_faults(&q, &t, &probes, &other, ctx))?;
                }
                for k in &probes {
                    crate::tick();
                    let mut ins = m.clone();
                    ins.insert(k.clone(), v("new"));
                    let mut rem = m.clone();
                    rem.remove(k);
                    let mut rp = m.clone();
                    rm::remove_prefix(&mut rp, k);
                    let name = |s: &str| format!("{w} children of kind {kind}, {s} {}", show(k));
                    modify_faults(&mk, &|t| t.try_insert(k, b"new"), &m, &ins, &|| name("insert"), ctx)?;
                    modify_faults(&mk, &|t| t.try_remove(k), &m, &rem, &|| name("remove"), ctx)?;
                    modify_faults(&mk, &|t| t.try_remove_prefix(k), &m, &rp, &|| name("remove_prefix"), ctx)?;
                    modify_faults(
                        &mk,
                        &|t| {
                            t.try_insert(k, b"new")?;
                            Ok(())
                        },
                        &m,
                        &ins,
                        &|| name("insert"),
                        ctx,
                    )?;
                    // a modified tree is written
                    let mk2 = || -> R<DT> {
                        let mut t = mk()?;
                        ok("insert", t.try_insert(k, b"new"))?;
                        Ok(t)
                    };
                    modify_faults(&mk2, &|t| t.try_reattach().map(drop), &ins, &ins, &|| name("reattach after insert"), ctx)?;
                }
            }
            Ok(())
        }));
    }
    units.extend(crate::c_types::s06_units());
    Check {
        id: "S06",
        level: "fault_enumeration",
        rule: "in every state (content and persistence state), for every query and operation, and for every pair of states and every combination: each single call of the store or of a user function fails, alone or with all later ones; a success must be right, after an error the tree has its previous content and the second attempt gives the right result; iterations give leading entries, the error, and end; non-trivial: all (a call fails in each)",
        bounds: format!("the universes of S02 and the pairs of S03 with up to {} persistence states per content; one failing position", if thorough { 5 } else { 3 }),
        assumptions: vec!["64 bit platform", "a failing call has no effect", "an in-memory left operand is not combined in place with a store that fails"],
        units,
        quarantine: false,
    }
}
#[allow(dead_code)]
fn _t(_: Arc<InternStore>) {}
