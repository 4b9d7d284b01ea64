//! C07: many-to-many collections are independent sets per owner.
use butane::query::OrderDirection;
use butane::{AutoPk, DataObject, Error, Many, ManyOpsAsync, ManyOpsSync, PrimaryKeyType, ToSql};
use rtm::models::*;
use rtm::ops::*;
use rtm::prelude::*;

type Set = BTreeSet<String>;
type Get<O, I> = (fn(&O) -> &Many<I>, fn(&mut O) -> &mut Many<I>);

trait Item: DataObject + Clone + std::fmt::Debug + Send + Sync + 'static {
    fn make(r: &mut Rng, i: usize) -> Self;
    fn touch(&mut self, r: &mut Rng);
}
macro_rules! item {
    ($m:ident, |$r:ident, $i:ident| $e:expr, |$o:ident, $r2:ident| $t:expr) => {
        impl Item for $m {
            fn make($r: &mut Rng, $i: usize) -> Self {
                $e
            }
            fn touch(&mut self, $r2: &mut Rng) {
                let $o = self;
                $t
            }
        }
    };
}
item!(Label, |r, i| Label { code: [0, 1, -1, i32::MAX, i32::MIN, 7, 8, 9][i % 8], text: text(r), prio: None }, |o, r| o.text = text(r));
item!(KText, |r, i| KText { key: ["", "a", "A", "a ", "'", "b'", "%", "é"][i % 8].into(), v: text(r), n: None }, |o, r| o.v = text(r));
item!(KAuto, |r, _i| KAuto { key: AutoPk::uninitialized(), v: text(r), n: None }, |o, r| o.v = text(r));
item!(KUuid, |r, i| KUuid { id: uuid::Uuid::from_u128(i as u128), v: text(r), n: None }, |o, r| o.v = text(r));
item!(Node, |r, _i| Node { id: AutoPk::uninitialized(), name: text(r), parent: None, links: Many::new() }, |o, r| o.name = text(r));
item!(User, |r, i| User { user: format!("u{i}"), order: 0, limit: None, default: text(r) }, |o, r| o.default = text(r));
item!(ClashItem, |r, i| ClashItem { id: i as i64, owner: 0, has: text(r) }, |o, r| o.has = text(r));

trait Owner: DataObject + Clone + std::fmt::Debug + Send + Sync + 'static {
    fn make(r: &mut Rng, i: usize) -> Self;
    /// Give the object the key of nobody.
    fn rekey(&mut self, i: usize);
}
impl Owner for Book {
    fn make(r: &mut Rng, _: usize) -> Self {
        let a = Author { name: "author".into(), rank: 0, bio: None };
        rtm::fixture::gen_book(r, &[a])
    }
    fn rekey(&mut self, _: usize) {
        self.id = AutoPk::uninitialized();
    }
}
impl Owner for Team {
    fn make(r: &mut Rng, i: usize) -> Self {
        Team { name: ["", "t", "T", "t'"][i % 4].into(), slogan: text(r), labels: Many::new(), words: Many::new(), autos: Many::new(), uuids: Many::new() }
    }
    fn rekey(&mut self, i: usize) {
        self.name = format!("re{i}");
    }
}
impl Owner for TeamU {
    fn make(_: &mut Rng, i: usize) -> Self {
        TeamU { id: uuid::Uuid::from_u128(i as u128), labels: Many::new() }
    }
    fn rekey(&mut self, i: usize) {
        self.id = uuid::Uuid::from_u128(1000 + i as u128);
    }
}
impl Owner for Node {
    fn make(r: &mut Rng, _: usize) -> Self {
        Node { id: AutoPk::uninitialized(), name: text(r), parent: None, links: Many::new() }
    }
    fn rekey(&mut self, _: usize) {
        self.id = AutoPk::uninitialized();
    }
}
impl Owner for Derived {
    fn make(_: &mut Rng, i: usize) -> Self {
        Derived { word: format!("w{i}"), n: 0, labels: Many::new() }
    }
    fn rekey(&mut self, i: usize) {
        self.word = format!("re{i}");
    }
}
impl Owner for Clash {
    fn make(r: &mut Rng, i: usize) -> Self {
        Clash { id: AutoPk::uninitialized(), owner: i as i32, has: text(r), many: Many::new() }
    }
    fn rekey(&mut self, _: usize) {
        self.id = AutoPk::uninitialized();
    }
}
impl Owner for rtm::models::Order {
    fn make(r: &mut Rng, i: usize) -> Self {
        rtm::models::Order {
            id: i as i64,
            group: text(r),
            user: None,
            select: 0,
            desc: String::new(),
            values: 0,
            index: true,
            key: String::new(),
            end: None,
            r#where: String::new(),
            r#type: 0,
            from: None,
            table: None,
            has: 0,
            owner: 0,
            references: Many::new(),
        }
    }
    fn rekey(&mut self, i: usize) {
        self.id = 1000 + i as i64;
    }
}

fn kstr(k: &impl ToSql) -> String {
    format!("{:?}", k.to_sql())
}
/// What one in-memory collection must report.
#[derive(Clone, Default, Debug)]
struct Coll {
    cached: Option<Set>,
    added: Vec<usize>,
    removed: Vec<usize>,
}
impl Coll {
    fn apply(&self, db: &Set, keys: &[String]) -> Set {
        let mut s = db.clone();
        s.extend(self.added.iter().map(|&i| keys[i].clone()));
        for &i in &self.removed {
            s.remove(&keys[i]);
        }
        s
    }
    fn settle(&mut self) {
        self.added.clear();
        self.removed.clear();
    }
}
struct Copy<O> {
    obj: O,
    owner: usize,
    colls: Vec<Coll>,
}
struct Hist<'a, O: Owner, I: Item> {
    ctx: &'a Ctx,
    case: &'a str,
    db: &'a mut Db,
    fields: Vec<Get<O, I>>,
    items: Vec<I>,
    keys: Vec<String>,
    /// what each owner's collections hold in the database
    truth: Vec<Vec<Set>>,
    pks: Vec<O::PKType>,
    log: Vec<String>,
    failed: bool,
}
impl<O: Owner, I: Item> Hist<'_, O, I> {
    fn bad(&mut self, sig: &str, m: String) {
        self.failed = true;
        self.ctx.violation(sig, self.case, format!("{:?} {}->{} {m}\n  history: {}", self.db.lane, O::TABLE, I::TABLE, self.log.join(" ; ")));
    }
    fn set_of(&self, v: &[&I]) -> Result<Set, String> {
        let mut s = Set::new();
        for i in v {
            let k = kstr(i.pk());
            let Some(p) = self.keys.iter().position(|x| *x == k) else { return Err(format!("an unknown object {i:?}")) };
            if I::TABLE != "Node" && format!("{:?}", self.items[p]) != format!("{i:?}") {
                return Err(format!("object {i:?} is not the row {:?}", self.items[p]));
            }
            if !s.insert(k) {
                return Err(format!("{i:?} twice"));
            }
        }
        Ok(s)
    }
    /// Freshly loaded collections of every owner against the truth.
    fn verify(&mut self, how: usize) {
        for o in 0..self.pks.len() {
            let pk = self.pks[o].clone();
            let obj = match catch(|| stry::<O>(self.db.c(), pk)) {
                Ok(Ok(Some(x))) => x,
                e => return self.bad("load-owner", format!("owner {o}: {e:?}")),
            };
            for f in 0..self.fields.len() {
                let m = (self.fields[f].0)(&obj);
                if !matches!(m.get().map(|_| ()), Err(Error::ValueNotLoaded)) {
                    return self.bad("unloaded-get", format!("owner {o} field {f}"));
                }
                let db = &*self.db;
                let got = match how % 3 {
                    0 => catch(|| smany(m, db.c()).map(|v| v.into_iter().cloned().collect::<Vec<I>>())),
                    1 => catch(|| ManyOpsSync::load_ordered(m, db.c(), if how % 2 == 0 { OrderDirection::Ascending } else { OrderDirection::Descending }).map(|v| v.cloned().collect())),
                    _ => catch(|| {
                        rt().block_on(async {
                            let c = connect_async(db.lane, &db.connstr).await?;
                            amany(m, &c).await.map(|v| v.into_iter().cloned().collect())
                        })
                    }),
                };
                let v = match got {
                    Ok(Ok(v)) => v,
                    e => return self.bad("load-many", format!("owner {o} field {f}: {e:?}")),
                };
                if how % 3 == 1 {
                    // the order the database gives the keys
                    let q = I::query().order(I::PKCOL, if how % 2 == 0 { OrderDirection::Ascending } else { OrderDirection::Descending });
                    let all: Vec<String> = match sload(q, self.db.c()) {
                        Ok(v) => v.iter().map(|x| kstr(x.pk())).collect(),
                        Err(e) => return self.bad("load-items", e.to_string()),
                    };
                    let pos: Vec<_> = v.iter().map(|x| all.iter().position(|y| *y == kstr(x.pk()))).collect();
                    if !pos.windows(2).all(|w| w[0] <= w[1]) {
                        return self.bad("order", format!("owner {o} field {f}: {pos:?}"));
                    }
                }
                match self.set_of(&v.iter().collect::<Vec<_>>()) {
                    Ok(s) if s == self.truth[o][f] => {}
                    Ok(s) => {
                        let t = self.truth[o][f].clone();
                        return self.bad("wrong-members", format!("owner {o} field {f} holds {s:?}, last saved {t:?}"));
                    }
                    Err(e) => return self.bad("wrong-members", format!("owner {o} field {f}: {e}")),
                }
                self.ctx.eval(1);
            }
        }
    }
    /// What an in-memory collection says of itself.
    fn look(&mut self, c: &mut Copy<O>, f: usize, do_load: bool, how: usize) {
        let m = (self.fields[f].0)(&c.obj);
        if do_load {
            let want = c.colls[f].cached.clone().unwrap_or_else(|| c.colls[f].apply(&self.truth[c.owner][f], &self.keys));
            let db = &*self.db;
            let got = match how % 3 {
                0 => catch(|| smany(m, db.c()).map(|v| v.into_iter().cloned().collect::<Vec<I>>())),
                1 => catch(|| ManyOpsSync::load_ordered(m, db.c(), OrderDirection::Ascending).map(|v| v.cloned().collect())),
                _ => catch(|| {
                    rt().block_on(async {
                        let c = connect_async(db.lane, &db.connstr).await?;
                        amany(m, &c).await.map(|v| v.into_iter().cloned().collect())
                    })
                }),
            };
            match got {
                Ok(Ok(v)) => {
                    let s: Vec<String> = v.iter().map(|x| kstr(x.pk())).collect();
                    let set: Set = s.iter().cloned().collect();
                    // a list given to set() may have held duplicates
                    if set != want || (c.colls[f].cached.is_none() && set.len() != s.len()) {
                        return self.bad("wrong-pending", format!("loaded {s:?}, saved plus pending is {want:?}; {:?}", c.colls[f]));
                    }
                    c.colls[f].cached = Some(want);
                }
                e => return self.bad("load-many", format!("{e:?}")),
            }
        }
        let got = m.get().map(|v| v.map(|x| kstr(x.pk())).collect::<Set>());
        match (got, &c.colls[f].cached) {
            (Ok(s), Some(w)) if s == *w => {}
            (Err(Error::ValueNotLoaded), None) => {}
            (g, w) => {
                let m = format!("get() gives {g:?}, want {w:?}");
                self.bad("wrong-get", m);
            }
        }
        self.ctx.eval(1);
    }
}

fn step<O: Owner, I: Item>(h: &mut Hist<O, I>, copies: &mut Vec<Copy<O>>, r: &mut Rng) {
    let n = copies.len();
    let ci = below(r, n);
    let f = below(r, h.fields.len());
    let i = below(r, h.items.len());
    let how = below(r, 12);
    let (get, get_mut) = h.fields[f];
    let owner = copies[ci].owner;
    match below(r, 14) {
        0..=2 => {
            h.log.push(format!("copy{ci}.f{f}.add({i})"));
            let item = h.items[i].clone();
            let c = &mut copies[ci];
            if let Err(e) = get_mut(&mut c.obj).add(&item) {
                return h.bad("add", format!("{e:?}"));
            }
            c.colls[f].added.push(i);
            c.colls[f].cached = None;
            h.look(c, f, false, how);
        }
        3 | 4 => {
            h.log.push(format!("copy{ci}.f{f}.remove({i})"));
            let item = h.items[i].clone();
            let c = &mut copies[ci];
            get_mut(&mut c.obj).remove(&item);
            c.colls[f].removed.push(i);
            c.colls[f].cached = None;
            h.look(c, f, false, how);
        }
        5 | 6 => {
            h.log.push(format!("copy{ci}.f{f}.load"));
            h.look(&mut copies[ci], f, true, how);
        }
        7..=9 => {
            // save: one collection, or the object; direct, in a transaction, asynchronously
            let whole = chance(r, 0.5);
            let rollback = chance(r, 0.2);
            h.log.push(format!("copy{ci}.{}save{}", if whole { String::new() } else { format!("f{f}.") }, ["", "(tx)", "(async)", "(rollback)"][if rollback { 3 } else { how % 3 }]));
            let c = &mut copies[ci];
            let before = (c.obj.clone(), c.colls.clone());
            let obj = &mut c.obj;
            let db = &mut *h.db;
            let lane = db.lane;
            let cs = db.connstr.clone();
            let res: Result<butane::Result<()>, String> = if rollback || how % 3 == 1 {
                catch(|| {
                    let t = db.cm().transaction()?;
                    if whole {
                        ssave(obj, &t)?;
                    } else {
                        ManyOpsSync::save(get_mut(obj), &t)?;
                    }
                    if rollback {
                        t.rollback()
                    } else {
                        t.commit()
                    }
                })
            } else if how % 3 == 0 {
                catch(|| if whole { ssave(obj, db.c()) } else { ManyOpsSync::save(get_mut(obj), db.c()) })
            } else {
                catch(|| {
                    rt().block_on(async {
                        let c = connect_async(lane, &cs).await?;
                        if whole {
                            asave(obj, &c).await
                        } else {
                            ManyOpsAsync::save(get_mut(obj), &c).await
                        }
                    })
                })
            };
            match res {
                Ok(Ok(())) => {}
                e => return h.bad("save", format!("{e:?}")),
            }
            if rollback {
                // the object no longer matches the database: go on with one which does
                c.obj = before.0;
                c.colls = before.1;
            } else {
                for j in 0..h.fields.len() {
                    if whole || j == f {
                        h.truth[owner][j] = c.colls[j].apply(&h.truth[owner][j], &h.keys);
                        c.colls[j].settle();
                    }
                }
            }
            h.verify(how);
            for j in 0..h.fields.len() {
                h.look(&mut copies[ci], j, false, how);
            }
        }
        10 => {
            h.log.push(format!("copy{ci}.f{f}.delete"));
            let c = &mut copies[ci];
            let db = &*h.db;
            let m = get_mut(&mut c.obj);
            let res = if how % 2 == 0 {
                catch(|| ManyOpsSync::delete(m, db.c()))
            } else {
                catch(|| {
                    rt().block_on(async {
                        let c = connect_async(db.lane, &db.connstr).await?;
                        ManyOpsAsync::delete(m, &c).await
                    })
                })
            };
            if !matches!(res, Ok(Ok(()))) {
                return h.bad("delete", format!("{res:?}"));
            }
            c.colls[f].settle();
            c.colls[f].cached = Some(Set::new());
            h.truth[owner][f].clear();
            h.verify(how);
            h.look(&mut copies[ci], f, false, how);
        }
        11 => {
            let mut which: Vec<usize> = (0..h.items.len()).filter(|_| chance(r, 0.5)).collect();
            which.shuffle(r);
            h.log.push(format!("copy{ci}.f{f}.set({which:?})"));
            let vals: Vec<I> = which.iter().map(|&i| h.items[i].clone()).collect();
            let c = &mut copies[ci];
            let db = &*h.db;
            let m = get_mut(&mut c.obj);
            let res = if how % 2 == 0 {
                catch(|| ManyOpsSync::set(m, db.c(), vals))
            } else {
                catch(|| {
                    rt().block_on(async {
                        let c = connect_async(db.lane, &db.connstr).await?;
                        ManyOpsAsync::set(m, &c, vals).await
                    })
                })
            };
            if !matches!(res, Ok(Ok(()))) {
                return h.bad("set", format!("{res:?}"));
            }
            let s: Set = which.iter().map(|&i| h.keys[i].clone()).collect();
            c.colls[f].settle();
            c.colls[f].cached = Some(s.clone());
            h.truth[owner][f] = s;
            h.verify(how);
            h.look(&mut copies[ci], f, false, how);
        }
        12 => {
            // another copy of some owner: loaded again, or a clone with what is pending
            let new = if chance(r, 0.5) {
                h.log.push(format!("copy{n}=get(owner{owner})"));
                let pk = h.pks[owner].clone();
                match stry::<O>(h.db.c(), pk) {
                    Ok(Some(o)) => Copy { obj: o, owner, colls: vec![Coll::default(); h.fields.len()] },
                    e => return h.bad("load-owner", format!("{e:?}")),
                }
            } else {
                h.log.push(format!("copy{n}=copy{ci}.clone()"));
                let c = &copies[ci];
                Copy { obj: c.obj.clone(), owner, colls: c.colls.clone() }
            };
            let a = get(&new.obj) == get(&copies[ci].obj);
            if !a {
                h.bad("copies-differ", String::new());
            }
            if n < 6 {
                copies.push(new);
            } else {
                copies[ci] = new;
            }
        }
        _ => {
            // a clone stored as an object of its own: what is pending goes to the new owner only
            let c = &copies[ci];
            let mut obj = c.obj.clone();
            obj.rekey(h.pks.len());
            h.log.push(format!("owner{}=copy{ci}.clone() under a new key", h.pks.len()));
            let mut colls = c.colls.clone();
            let db = &*h.db;
            match catch(|| ssave(&mut obj, db.c())) {
                Ok(Ok(())) => {}
                e => return h.bad("save", format!("{e:?}")),
            }
            h.pks.push(obj.pk().clone());
            let o = h.pks.len() - 1;
            let mut sets = vec![];
            for cl in &mut colls {
                sets.push(cl.apply(&Set::new(), &h.keys));
                cl.settle();
                cl.cached = None;
            }
            h.truth.push(sets);
            h.verify(how);
            let new = Copy { obj, owner: o, colls };
            if n < 6 {
                copies.push(new);
            } else {
                copies[ci] = new;
            }
        }
    }
}

fn history<O: Owner, I: Item>(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str, fields: &[Get<O, I>]) {
    db.wipe();
    let lane = db.lane;
    let mut a = Author { name: "author".into(), rank: 0, bio: None };
    let _ = ssave(&mut a, db.c());
    let mut items = vec![];
    for i in 0..4 {
        let mut it = I::make(r, i);
        if let Err(e) = catch(|| ssave(&mut it, db.c())).and_then(|x| x.map_err(|e| format!("{e}"))) {
            return ctx.violation("save-item", case, format!("{lane:?} {}: {e}", I::TABLE));
        }
        items.push(it);
    }
    let keys = items.iter().map(|i| kstr(i.pk())).collect();
    let mut h: Hist<O, I> = Hist { ctx, case, db, fields: fields.to_vec(), items, keys, truth: vec![], pks: vec![], log: vec![], failed: false };
    let mut copies = vec![];
    for i in 0..3 {
        let mut o = O::make(r, i);
        // additions made before the first save are saved with it
        let mut first = vec![];
        for g in fields {
            let which: Vec<usize> = (0..h.items.len()).filter(|_| chance(r, 0.3)).collect();
            for &w in &which {
                if let Err(e) = (g.1)(&mut o).add(&h.items[w]) {
                    return h.bad("add", format!("{e:?}"));
                }
            }
            first.push(which.iter().map(|&w| h.keys[w].clone()).collect::<Set>());
        }
        h.log.push(format!("owner{i}=new with {first:?}"));
        match catch(|| ssave(&mut o, h.db.c())) {
            Ok(Ok(())) => {}
            e => return h.bad("save", format!("{e:?}")),
        }
        h.pks.push(o.pk().clone());
        h.truth.push(first);
        copies.push(Copy { obj: o, owner: i, colls: vec![Coll::default(); fields.len()] });
    }
    h.verify(0);
    for s in 0..25 {
        if h.failed {
            return;
        }
        if chance(r, 0.1) && I::TABLE != O::TABLE {
            // members change: every fresh load gives the current row
            let i = below(r, h.items.len());
            let mut it = h.items[i].clone();
            it.touch(r);
            ssave(&mut it, h.db.c()).expect("touch");
            h.items[i] = it;
        }
        step(&mut h, &mut copies, r);
        ctx.nontrivial(&(lane.name(), O::TABLE, I::TABLE, &h.truth, s));
    }
    if h.failed {
        return;
    }
    // a member which is not stored has no key to refer to it by
    let fresh = I::make(r, 7);
    if !fresh.pk().is_valid() && !matches!((fields[0].1)(&mut copies[0].obj).add(&fresh), Err(Error::ValueNotSaved)) {
        h.bad("unsaved-member", String::new());
    }
    refused(&mut h, r);
    ctx.count(&format!("histories {} {}->{}", lane.name(), O::TABLE, I::TABLE), 1);
    ctx.sample(format!("{lane:?} {}->{}: {}", O::TABLE, I::TABLE, h.log.join(" ; ")));
}

/// A save refused by the database keeps what is pending, and the owners as they were.
fn refused<O: Owner, I: Item>(h: &mut Hist<O, I>, r: &mut Rng) {
    let (_, get_mut) = h.fields[0];
    let mut gone = I::make(r, 6);
    if ssave(&mut gone, h.db.c()).is_err() || sdel(&gone, h.db.c()).is_err() || !gone.pk().is_valid() {
        return;
    }
    let o = below(r, h.pks.len());
    let pk = h.pks[o].clone();
    let Ok(Some(mut obj)) = stry::<O>(h.db.c(), pk) else { return };
    let keep = below(r, h.items.len());
    let drop = below(r, h.items.len());
    let m = get_mut(&mut obj);
    m.add(&h.items[keep]).unwrap();
    m.add(&gone).unwrap();
    m.remove(&h.items[drop]);
    h.log.push(format!("owner{o} adds {keep} and a missing object, removes {drop}: save"));
    let lane = h.db.lane;
    let res = catch(|| {
        let t = h.db.cm().transaction()?;
        ManyOpsSync::save(get_mut(&mut obj), &t)?;
        t.commit()
    });
    match res {
        Ok(Err(_)) => {}
        Ok(Ok(())) => {
            h.ctx.count(&format!("references to missing members accepted {}", lane.name()), 1);
            return;
        }
        e => return h.bad("save", format!("{e:?}")),
    }
    h.ctx.count("refused saves", 1);
    h.verify(0);
    if h.failed {
        return;
    }
    // the member is stored after all: the same save now does all of it
    if ssave(&mut gone, h.db.c()).is_err() {
        return;
    }
    h.items.push(gone.clone());
    h.keys.push(kstr(gone.pk()));
    h.log.push("the missing object is stored: save again".into());
    match catch(|| ManyOpsSync::save(get_mut(&mut obj), h.db.c())) {
        Ok(Ok(())) => {}
        e => return h.bad("save", format!("{e:?}")),
    }
    let k = h.keys.len() - 1;
    h.truth[o][0].insert(h.keys[keep].clone());
    h.truth[o][0].insert(h.keys[k].clone());
    h.truth[o][0].remove(&h.keys[drop]);
    h.verify(1);
}

/// Several writers change collections at once, each with a connection of its own.
fn storm(ctx: &Ctx, db: &mut Db, r: &mut Rng, case: &str) {
    db.wipe();
    let lane = db.lane;
    let mut labels = vec![];
    for i in 0..6 {
        let mut l = <Label as Item>::make(r, i);
        ssave(&mut l, db.c()).expect("label");
        labels.push(l);
    }
    let mut teams = vec![];
    for i in 0..4 {
        let mut t = <Team as Owner>::make(r, i);
        // what nobody touches
        t.labels.add(&labels[5]).unwrap();
        ssave(&mut t, db.c()).expect("team");
        teams.push(t.name.clone());
    }
    // writer w works on owners w and 3 (shared) with label w of its own
    let out = std::sync::Mutex::new(vec![]);
    let mut conns: Vec<_> = (0..3).map(|_| db.connect()).collect();
    let seeds: Vec<u64> = (0..3).map(|_| r.random()).collect();
    std::thread::scope(|s| {
        for (w, c) in conns.iter_mut().enumerate() {
            let (teams, labels, out, seed) = (&teams, &labels, &out, seeds[w]);
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                use rand::SeedableRng;
                let mut r = Rng::seed_from_u64(seed);
                let mut has = [false; 2];
                for step in 0..12 {
                    let which = below(&mut r, 2);
                    let add = r.random_bool(0.6);
                    for try_ in 0..300 {
                        let res: Result<butane::Result<()>, String> = catch(|| {
                            let mut t: Team = sget(&*c, teams[if which == 0 { w } else { 3 }].clone())?;
                            if add {
                                t.labels.add(&labels[w])?;
                            } else {
                                t.labels.remove(&labels[w]);
                            }
                            if step % 2 == 0 {
                                ManyOpsSync::save(&mut t.labels, &*c)
                            } else {
                                let tx = c.transaction()?;
                                ManyOpsSync::save(&mut t.labels, &tx)?;
                                tx.commit()
                            }
                        });
                        match res {
                            Ok(Ok(())) => {
                                has[which] = add;
                                break;
                            }
                            Ok(Err(e)) if { let s = format!("{e:?}").to_lowercase(); s.contains("lock") || s.contains("busy") || s.contains("conflict") } && try_ < 299 => {
                                std::thread::sleep(std::time::Duration::from_millis(1 + (w as u64 * 3 + try_) % 5));
                            }
                            e => {
                                out.lock().unwrap().push((w, None, format!("{e:?}")));
                                return;
                            }
                        }
                    }
                }
                out.lock().unwrap().push((w, Some(has), String::new()));
            }).unwrap();
        }
    });
    drop(conns);
    let out = out.into_inner().unwrap();
    let mut want: Vec<BTreeSet<i32>> = vec![BTreeSet::from([labels[5].code]); 4];
    for (w, has, e) in &out {
        match has {
            None => return ctx.violation("concurrent-save", case, format!("{lane:?} writer {w}: {e}")),
            Some(h) => {
                if h[0] {
                    want[*w].insert(labels[*w].code);
                }
                if h[1] {
                    want[3].insert(labels[*w].code);
                }
            }
        }
    }
    for (i, t) in teams.iter().enumerate() {
        let t: Team = sget(db.c(), t.clone()).expect("get");
        let got: Vec<i32> = smany(&t.labels, db.c()).expect("load").iter().map(|l| l.code).collect();
        let set: BTreeSet<i32> = got.iter().copied().collect();
        if set.len() != got.len() || set != want[i] {
            ctx.violation("concurrent-writers", case, format!("{lane:?} owner {i} holds {got:?}, want {:?}", want[i]));
        }
        ctx.eval(1);
    }
    ctx.nontrivial(&(lane.name(), "storm", &want));
    ctx.count(&format!("storms {}", lane.name()), 1);
}

fn main() {
    let ctx = Arc::new(Ctx::new("C07", 35, 900));
    ctx.rule("a step of a history, distinct by backend, models and what every owner's collections hold after it");
    ctx.assume("adding and removing one member between two saves leaves it removed, as Many::save documents");
    ctx.watchdog(120, None);
    ctx.parallel(&Lane::ALL, |lane| {
        let mut db = Db::new(&ctx, lane);
        ctx.cases(lane.name(), 1.0, 10, 100_000, |case, r| {
            let idx: usize = case.rsplit('/').next().unwrap().parse().unwrap();
            match idx % 11 {
                0 => history::<Book, Label>(&ctx, &mut db, r, case, &[(|o| &o.labels, |o| &mut o.labels), (|o| &o.extra, |o| &mut o.extra)]),
                1 => history::<Team, Label>(&ctx, &mut db, r, case, &[(|o| &o.labels, |o| &mut o.labels)]),
                2 => history::<Team, KText>(&ctx, &mut db, r, case, &[(|o| &o.words, |o| &mut o.words)]),
                3 => history::<Team, KAuto>(&ctx, &mut db, r, case, &[(|o| &o.autos, |o| &mut o.autos)]),
                4 => history::<Team, KUuid>(&ctx, &mut db, r, case, &[(|o| &o.uuids, |o| &mut o.uuids)]),
                5 => history::<TeamU, Label>(&ctx, &mut db, r, case, &[(|o| &o.labels, |o| &mut o.labels)]),
                6 => history::<Node, Node>(&ctx, &mut db, r, case, &[(|o| &o.links, |o| &mut o.links)]),
                7 => history::<Derived, Label>(&ctx, &mut db, r, case, &[(|o| &o.labels, |o| &mut o.labels)]),
                8 => history::<Clash, ClashItem>(&ctx, &mut db, r, case, &[(|o| &o.many, |o| &mut o.many)]),
                9 => history::<rtm::models::Order, User>(&ctx, &mut db, r, case, &[(|o| &o.references, |o| &mut o.references)]),
                _ if lane != Lane::Turso => storm(&ctx, &mut db, r, case),
                _ => {}
            }
        });
    });
    ctx.finish();
}
