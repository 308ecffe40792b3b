From e1627260feb57aaa9e8150980f8bcbd3e477cdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 01/34] fix: clean every edge that shares a dirty bit, not only
 the first

---
 src/engine.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6e4ce1f..6c6c5bb 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -996,7 +996,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
-    for succ in succs.iter() {
+    for (i, succ) in succs.iter().enumerate() {
         let dirty = {
             let st = &mut *g.borrow_mut();
             get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty
@@ -1016,7 +1016,15 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             else {
                 let st : &mut DCG = &mut *g.borrow_mut();
                 //st.cnt.clean += 1 ;
-                get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                // Several edges may target the same location (e.g.,
+                // distinct projections, via `force_map`), and these
+                // edges share one dirty bit.  The bit is only clear
+                // after the last one of them is found to be unchanged.
+                let is_shared = succs[i + 1..].iter()
+                    .any(|later| later.effect == succ.effect && later.loc == succ.loc) ;
+                if ! is_shared {
+                    get_succ_mut(st, loc, succ.effect.clone(), &succ.loc).dirty = false ;
+                }
                 dcg_effect!(reflect::trace::Effect::CleanEdge, Some(loc), succ);
             }
             dcg_effect_end!();
-- 
2.43.0


From e59d9068e61fbc9fed11990ad1d4ab0f46552b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 02/34] fix: forcing a cell after projecting it records the
 full observation

---
 src/engine.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6c6c5bb..791fc97 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1972,8 +1972,10 @@ impl Adapton for DCG {
                     };
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
-                        for &(ref succ, ref _pred_dep) in frame.succs.iter() {
-                            if &succ.loc == loc && succ.effect == Effect::Observe
+                        for &(ref succ, ref pred_dep) in frame.succs.iter() {
+                            // (A partial observation, whose `pred_dep` is `Some(_)`,
+                            // does not subsume the full one that happens here.)
+                            if &succ.loc == loc && succ.effect == Effect::Observe && pred_dep.is_none()
                             { is_dup = true }
                         };
                         is_dup
-- 
2.43.0


From 45a1b3c1a4eb6d53b90ea1f0db699f4d78aeaf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 03/34] fix: a structural thunk is pure only if its evaluation
 observed nothing

---
 src/engine.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 791fc97..aecf3bd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2078,6 +2078,12 @@ impl Adapton for DCG {
                     }
                 } ;
                 let st : &mut DCG = &mut *g.borrow_mut() ;
+                // Purity of a thunk depends on the successors of its
+                // evaluation, which may have (re-)happened just above.
+                let is_pure = is_pure && (!is_comp || is_cycle || {
+                    let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
+                    node.succs().len() == 0
+                }) ;
                 if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
-- 
2.43.0


From e8cede8f9ff536ced633ec1f07b44afa47dc88d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 04/34] fix: force_abs observations are dirtied when the
 observed cell changes

---
 src/engine.rs | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index aecf3bd..0ed2c1f 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1122,8 +1122,10 @@ trait AbsDiff<T> {
 /// result of applying a (possibly merged, and thus abstracted)
 /// mapping function `abs`.
 struct ForceAbsDep<Arg,Abs,T,DiffT,S> {
-    /// types that we do not instantiate here; we only store an `Abs` here
-    phm:PhantomData<(Arg,T,DiffT,S)>,
+    /// types that we do not instantiate here; we only store an `Abs` and a `T` here
+    phm:PhantomData<(Arg,DiffT,S)>,
+    /// the value observed by the mapping, to difference against future values
+    val:T,
     /// abstract mapping, so we can re-map via `map.1.map(map.0,_)`
     map:(Abs, Box<dyn AbsMapFam<Arg,Abs,T,DiffT,S>>),
 }
@@ -1137,7 +1139,7 @@ impl<Arg,Abs,T:'static,DiffT,S> AbsDiff<T> for ForceAbsDep<Arg,Abs,T,DiffT,S> {
 
 impl<Arg:'static,   // identifies a concrete mapping in the family
      Abs:'static,   // identifies an abstract mapping: a _set_ of concrete mappings
-     T:'static,     // the mapping input
+     T:'static+Debug+Hash, // the mapping input
      DiffT:'static, // differences in the mapping input
      S:'static      // the mapping output
      >
@@ -1147,16 +1149,25 @@ impl<Arg:'static,   // identifies a concrete mapping in the family
     fn is_absmap(self:&Self) -> Option<TypeId> {
         Some(TypeId::of::<Self>())
     }
-    fn dirty (self:&Self, _g:&mut DCG, _loc:&Rc<Loc>) -> DCGRes {
-        unimplemented!()
+    fn dirty (self:&Self, g:&mut DCG, loc:&Rc<Loc>) -> DCGRes {
+        check_force_abs_dep(g, self, loc)
     }
-    fn clean (self:&Self, _g:&RefCell<DCG>, _loc:&Rc<Loc>) -> DCGRes {
-        // the edge is dirty because we've already determined it
-        // should be, via an abstract test (`fn is_dirty` on the
-        // AbsMapFam trait).  We could try to re-run this test _now_,
-        // but we don't have the old value of the observation in hand,
-        // and would like to avoid storing it on the edge.
-        DCGRes{ changed: true }
+    fn clean (self:&Self, g:&RefCell<DCG>, loc:&Rc<Loc>) -> DCGRes {
+        check_force_abs_dep(&mut *g.borrow_mut(), self, loc)
+    }
+}
+
+/// The observation changed if the difference of the values of the
+/// cell, then and now, intersects the abstract mapping.
+fn check_force_abs_dep<Arg,Abs,T:'static+Debug+Hash,DiffT,S>
+    (st:&mut DCG, dep:&ForceAbsDep<Arg,Abs,T,DiffT,S>, loc:&Rc<Loc>) -> DCGRes
+{
+    let node : &mut Node<T> = res_node_of_loc(st, loc) ;
+    match *node {
+        Node::Mut(ref nd) =>
+            DCGRes{changed:dep.is_diff_dirty(&dep.val, &nd.val)},
+        Node::Comp(_) | Node::Pure(_) =>
+            unreachable!()
     }
 }
 
@@ -1316,7 +1327,7 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.is_absmap() != None || dep.dirty(st, loc).changed == false
+            Some(dep) => dep.dirty(st, loc).changed == false
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
@@ -1932,6 +1943,7 @@ impl Adapton for DCG {
                             // `dep` records the mapping function
                             let dep : Rc<Box<dyn DCGDep>> = Rc::new(Box::new(ForceAbsDep{
                                 phm:PhantomData,
+                                val:val.clone(),
                                 map:(absmapfam.abs(arg), absmapfam),
 
                             }));
-- 
2.43.0


From a7ba8e1ee436f5d183268988d1f532115c730039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 05/34] fix: overwriting a cell with a thunk preserves the
 predecessors of the cell

---
 src/engine.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 0ed2c1f..7da1d6a 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1166,8 +1166,9 @@ fn check_force_abs_dep<Arg,Abs,T:'static+Debug+Hash,DiffT,S>
     match *node {
         Node::Mut(ref nd) =>
             DCGRes{changed:dep.is_diff_dirty(&dep.val, &nd.val)},
-        Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+        // the cell was overwritten by a computation
+        Node::Comp(_) => DCGRes{changed:true},
+        Node::Pure(_) => unreachable!()
     }
 }
 
@@ -1193,8 +1194,9 @@ fn check_force_map_dep
                    (&Art{art:EnumArt::Loc(loc.clone())},
                     nd.val.clone())},
 
-        Node::Comp(_) | Node::Pure(_) =>
-            unreachable!()
+        // the cell was overwritten by a computation
+        Node::Comp(_) => DCGRes{changed:true},
+        Node::Pure(_) => unreachable!()
     }
 }
 
@@ -1737,8 +1739,18 @@ impl Adapton for DCG {
                         let res_nd: &mut Box<Node<Res>> = unsafe { transmute::<_,_>( node ) } ;
                         match ** res_nd {
                             Node::Pure(_)=> unreachable!(),
-                            Node::Mut(_) => {
-                                (true, true, false) // Todo: Do we need to preserve preds?
+                            Node::Mut(ref mut nd) => {
+                                // Case: Overwrite a cell with a computation; Preserve the
+                                // predecessors of the cell: They still have edges to this location.
+                                let preds = replace(&mut nd.preds, Vec::new()) ;
+                                **res_nd = Node::Comp(CompNode{
+                                    preds:preds,
+                                    succs:Vec::new(),
+                                    producer:producer.copy(),
+                                    res:None,
+                                }) ;
+                                // do_dirty=true; do_insert=false
+                                (true, false, false)
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
-- 
2.43.0


From fa9b687c5411b8fa955780afea08dee27bca0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:55 +0000
Subject: [PATCH 06/34] fix: overwriting a thunk with a cell makes the location
 hold the cell

---
 src/engine.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 7da1d6a..6e2c2e6 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1613,7 +1613,17 @@ impl Adapton for DCG {
             );
             if do_set   { set_(self, AbsArt::Loc(loc.clone()), val.clone()) };
             if do_dirty { dirty_alloc(self, &loc) } ;
-            match succs { Some(succs) => revoke_succs(self, &loc, &succs), None => () } ;
+            match succs { Some(succs) => {
+                // The cell overwrites a computation: Replace its node,
+                // preserving its predecessors.
+                revoke_succs(self, &loc, &succs) ;
+                let node : &mut Box<Node<T>> = res_node_of_loc(self, &loc) ;
+                let preds : Vec<Pred> = match **node {
+                    Node::Comp(ref mut nd) => replace(&mut nd.preds, Vec::new()),
+                    _ => unreachable!(),
+                } ;
+                **node = Node::Mut(MutNode{preds:preds, val:val.clone()}) ;
+            }, None => () } ;
             dcg_effect_end!();
 
             if do_insert {
-- 
2.43.0


From 4afc5088b08cab8e355b6eca0cfde727aa8ad0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 07/34] fix: thunks with NameChoice::Eager or Naive under the
 DCG engine

---
 src/engine.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index 6e2c2e6..859c4dc 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2483,6 +2483,18 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
 {
     GLOBALS.with(|g| {
         match g.borrow().engine {
+            // These cases do not involve the DCG (and must not borrow
+            // it, since the eager function may use the engine).
+            Engine::DCG(_) if id == NameChoice::Eager => {
+                Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))}
+            },
+            Engine::DCG(_) if id == NameChoice::Naive => {
+                Art{art:EnumArt::Force(
+                    Rc::new(NaiveThunk{
+                        id:id,prog_pt:prog_pt,
+                        fn_box:fn_box,arg:arg,
+                        spurious:spurious} ))}
+            },
             Engine::DCG(ref dcg) => {
                 Art{art:EnumArt::Loc({
                     if let AbsArt::Loc(loc) =
-- 
2.43.0


From cedf8c69f6716a53f6631830faa6f6498d5f668e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:26 +0000
Subject: [PATCH 08/34] fix: thunk![[name] body] uses the body as its program
 point

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8fda541..83c0d92 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -413,7 +413,7 @@ macro_rules! thunk {
   [ [ $name:ident ] $body:expr ] => {{
       thunk(
           NameChoice::Nominal(name_of_str(stringify!($name))),
-          prog_pt!(stringify!($fun)),
+          prog_pt!(stringify!($body)),
           Rc::new(Box::new( move |(),()| { $body } )),
           () ,
           () )
-- 
2.43.0


From 40b0ae1acb18f08813b99025071125982fd2ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 09/34] fix: re-allocating an unchanged structural cell is
 traced as unchanged content

---
 src/engine.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/engine.rs b/src/engine.rs
index 859c4dc..2684362 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1377,6 +1377,7 @@ fn check_cell_change<T:'static+Eq+Debug> (st:&mut DCG, cell:AbsArt<T,Loc>, val:&
         let node = res_node_of_loc::<T>( st, loc ) ;
         match **node {
             Node::Mut(ref mut nd) => { &nd.val != val }
+            Node::Pure(ref mut nd) => { &nd.val != val }
             _ => { /* the location was previously _not_ a cell, so yes */ true }
         }
     }
-- 
2.43.0


From e16924fc309e6a277483e679f8bd0b5fb343f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 10/34] fix: trace_count descends through debug effects and
 accepts removed edges

---
 src/reflect.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/reflect.rs b/src/reflect.rs
index b7dc2b9..a6e5aeb 100644
--- a/src/reflect.rs
+++ b/src/reflect.rs
@@ -534,6 +534,9 @@ archivist:
                 Role::Editor    => c.dirty.0 += 1,
                 Role::Archivist => c.dirty.1 += 1,
             },
+            // Debugging information, and the edges of a thunk
+            // overwritten by a cell; not counted.
+            Effect::Debug(_,_) | Effect::Remove => (),
             _ => println!("WARNING: unexpected effect: {:?}", tr), // XXX
         }
         for sub_tr in tr.extent.iter() {
@@ -545,12 +548,11 @@ archivist:
         match role {
             Role::Editor =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Editor, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Editor, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => unreachable!(),
                     Effect::CleanEdge => unreachable!(),
@@ -579,12 +581,11 @@ archivist:
                 },
             Role::Archivist =>
                 match tr.effect {
-                    Effect::Debug(_,_) |
-                    // Effect::UserEffect(_,_) => {
-                    //     for sub_tr in tr.extent.iter() { 
-                    //         trace_count_rec(Role::Archivist, sub_tr, c);
-                    //     }                        
-                    // },
+                    Effect::Debug(_,_) => {
+                        for sub_tr in tr.extent.iter() { 
+                            trace_count_rec(Role::Archivist, sub_tr, c);
+                        }                        
+                    },
                     Effect::Dirty => trace_count_dirty(role, tr, c),
                     Effect::Remove => assert!(tr.extent.len() == 0),
                     Effect::CleanEdge => assert!(tr.extent.len() == 0),
-- 
2.43.0


From e1a39d29bdf9459e9a7736fd61be70bf8e0c3e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 11/34] fix: a thunk that forces itself in a cycle does not
 depend on itself

The engine recorded an edge from the thunk to itself, so that dirtying the
thunk later failed an assertion.
---
 src/engine.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 2684362..be8accd 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2119,7 +2119,12 @@ impl Adapton for DCG {
                     let node : &mut Node<T> = res_node_of_loc(st, &loc) ;
                     node.succs().len() == 0
                 }) ;
-                if !is_dup && !is_pure { match st.stack.last_mut() { None => (), Some(frame) => {
+                // A thunk that forces itself observes the given cycle value,
+                // not its own content; it does not depend on itself.
+                let is_self = is_cycle && match st.stack.last() {
+                    None => false, Some(frame) => &frame.loc == loc
+                };
+                if !is_dup && !is_pure && !is_self { match st.stack.last_mut() { None => (), Some(frame) => {
                     let succ =
                         Succ{loc:loc.clone(),
                              dep:Rc::new(Box::new(ForceDep{res:result.clone()})),
-- 
2.43.0


From fd2063cf8a35d13340afb790ce57fc725bd1dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 12/34] fix: cleaning thunks that force each other in a cycle
 terminates

An edit below a cycle made the next demand recur without end: the engine
cleaned the thunks of the cycle in turn, without noticing the cycle.  Thunks
that are being cleaned now count as in progress, as those that are running.
---
 src/engine.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index be8accd..90904b4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -390,6 +390,8 @@ pub struct DCG {
     pub flags : Flags, // public because I dont want to write / design abstract accessors
     table : HashMap<Rc<Loc>, Box<dyn GraphNode>>,
     stack : Vec<Frame>,
+    /// thunks being cleaned (whose dirty dependencies are being checked)
+    cleaning : Vec<Rc<Loc>>,
     path  : Rc<Path>,
     //cnt   : Cnt,
     dcg_count : usize,
@@ -991,11 +993,19 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
     res
 }
 
+/// True for the thunks that are currently running or being cleaned:
+/// demanding one of them (again) forms a cycle.
+fn is_in_progress(st:&DCG, loc:&Rc<Loc>) -> bool {
+    st.stack.iter().any(|frame| &frame.loc == loc)
+        || st.cleaning.iter().any(|cleaning| cleaning == loc)
+}
+
 fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
     (g:&RefCell<DCG>,
      this_dep:&ForceDep<Res>,
      loc:&Rc<Loc>, cache:Res, succs:Vec<Succ>) -> DCGRes
 {
+    g.borrow_mut().cleaning.push(loc.clone());
     for (i, succ) in succs.iter().enumerate() {
         let dirty = {
             let st = &mut *g.borrow_mut();
@@ -1011,6 +1021,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
                 dcg_effect_end!();
                 let changed = result != this_dep.res ;
                 dcg_effect_end!();
+                g.borrow_mut().cleaning.pop();
                 return DCGRes{changed:changed}
             }
             else {
@@ -1030,6 +1041,7 @@ fn clean_comp<Res:'static+Sized+Debug+PartialEq+Clone+Eq+Hash>
             dcg_effect_end!();
         }
     } ;
+    g.borrow_mut().cleaning.pop();
     let changed = this_dep.res != cache ;
     DCGRes{changed:changed}
 }
@@ -1256,6 +1268,8 @@ impl <Res:'static+Sized+Debug+PartialEq+Eq+Clone+Hash>
                 },
             }
         } ;
+        // A cycle: The observer has to run again, to observe it.
+        if is_in_progress(&*g.borrow(), loc) { return DCGRes{changed:true} }
         let none : Option<Loc> = None ;
         match res_succs {
             Some((res,succs)) => clean_comp(g, self, loc, res, succs),
@@ -1516,6 +1530,7 @@ impl Adapton for DCG {
             },
             table : table,
             stack : stack,
+            cleaning : Vec::new(),
             path  : path,
             dcg_count : 0,
             dcg_hash : 0, // XXX This makes assumptions about hashing implementation
@@ -1998,13 +2013,7 @@ impl Adapton for DCG {
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
                     let is_pure_opt : bool = st.flags.use_purity_optimization ;
-                    let is_cycle = { let mut is_cycle = false;
-                                     for frame in st.stack.iter() {
-                                         if &frame.loc == loc {
-                                             is_cycle = true ; break
-                                         } else {  } }
-                                     is_cycle
-                    };
+                    let is_cycle = is_in_progress(st, loc);
                     let is_dup : bool = match st.stack.last_mut() { None => false, Some(frame) => {
                         let mut is_dup = false;
                         for &(ref succ, ref pred_dep) in frame.succs.iter() {
-- 
2.43.0


From a0837ca8d5df50519d55ec24b872a80c5b3ba448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 13/34] fix: re-allocating a thunk with a new argument also
 replaces its spurious arguments

---
 src/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 90904b4..d1cb657 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1792,7 +1792,9 @@ impl Adapton for DCG {
                                         (false, false, false)
                                     }
                                     else { // Case: Not the same argument:
-                                        app.consume(arg.clone()); // overwrite the old argument
+                                        // overwrite the old argument, along with the
+                                        // spurious arguments that it determines
+                                        comp_nd.producer = producer.copy();
                                         comp_nd.res = None ; // clear the cache
                                         // do_dirty=true; do_insert=false
                                         (true, false, false)
-- 
2.43.0


From cdb2b2c6a8562f25f64376581fc2f0a3e8bfcc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:39 +0000
Subject: [PATCH 14/34] fix: check the argument type before comparing the
 arguments of two thunks

---
 src/engine.rs | 59 +++++++++++++++++----------------------------------
 1 file changed, 19 insertions(+), 40 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index d1cb657..3047d7d 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -9,7 +9,7 @@ demonstrates the [Adapton programming model](https://docs.rs/adapton/0/adapton/i
 
  */
 
-use core::any::TypeId;
+use core::any::{Any,TypeId};
 use core::marker::PhantomData;
 
 use std::cell::RefCell;
@@ -711,11 +711,7 @@ trait Producer<Res> : Debug {
     fn copy(self:&Self) -> Box<dyn Producer<Res>>;
     fn eq(self:&Self, other:&dyn Producer<Res>) -> bool;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
-}
-// Consume a value of type Arg.
-trait Consumer<Arg> : Debug {
-    fn consume(self:&mut Self, _: Arg);
-    fn get_arg(self:&mut Self) -> Arg;
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any;
 }
 // struct App is hidden by traits Comp<Res> and CompWithArg<Res>, below.
 #[derive(Clone)]
@@ -763,25 +759,13 @@ impl<Arg:'static+PartialEq+Eq+Clone+Debug,Spurious:'static+Clone,Res:'static+Deb
         & self.prog_pt
     }
     fn eq (&self, other:&dyn Producer<Res>) -> bool {
-        if &self.prog_pt == other.prog_pt() {
-            let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
-            let other : &Box<App<Arg,Spurious,Res>> = unsafe { transmute::<_,_>( other ) } ;
-            self.arg == other.arg
-        } else {
-            false
-        }
+        &self.prog_pt == other.prog_pt()
+            && other.arg().downcast_ref::<Arg>() == Some(&self.arg)
+    }
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any {
+        & self.arg
     }
 }
-impl<Arg:Clone+PartialEq+Eq+Debug,Spurious,Res>
-    Consumer<Arg> for
-    App<Arg,Spurious,Res>
-{
-    fn consume(self:&mut Self, arg:Arg) { self.arg = arg; }
-    fn get_arg(self:&mut Self) -> Arg   { self.arg.clone() }
-}
-
 // ----------- Location resolution:
 
 fn lookup_abs<'r>(st:&'r mut DCG, loc:&Rc<Loc>) -> &'r mut Box<dyn GraphNode> {
@@ -1780,13 +1764,12 @@ impl Adapton for DCG {
                             },
                             Node::Comp(ref mut comp_nd) => {
                                 let equal_producer_prog_pts : bool =
-                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() ) ;
-                                if equal_producer_prog_pts { // => safe cast to Box<Consumer<Arg>>
-                                    let app: &mut Box<App<Arg,Spurious,Res>> =
-                                    // TODO-Soon: Follow pattern above for assert_graphnode_res_type to dynamically check the safety of this cast
-                                        unsafe { transmute::<_,_>( &mut comp_nd.producer ) }
-                                    ;
-                                    if app.get_arg() == arg {
+                                    comp_nd.producer.prog_pt().eq( producer.prog_pt() )
+                                    // a generic function has a different argument
+                                    // type at each of its instances
+                                    && comp_nd.producer.arg().is::<Arg>() ;
+                                if equal_producer_prog_pts {
+                                    if comp_nd.producer.arg().downcast_ref::<Arg>() == Some(&arg) {
                                         // Case: Same argument; Nothing else to do:
                                         // do_dirty=false; do_insert=false
                                         (false, false, false)
@@ -2228,6 +2211,7 @@ trait Force<T> {
     fn eq(self:&Self, other:&dyn Force<T>) -> bool;
     fn id<'r>(self:&'r Self) -> &'r NameChoice;
     fn prog_pt<'r>(self:&'r Self) -> &'r ProgPt;
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any;
     fn hash_u64(self:&Self) -> u64;
     fn fmt(&self, f:&mut Formatter) -> fmt::Result;
 }
@@ -2269,17 +2253,12 @@ impl<A:Hash+Clone+Eq+Debug+'static,S:Clone+'static,T:'static>
         hasher.finish()
     }
     fn eq (&self, other:&dyn Force<T>) -> bool {
-        if   &self.id      == other.id()
+        &self.id == other.id()
             && &self.prog_pt == other.prog_pt()
-        {
-            let other = Box::new(other) ;
-            // This is safe if the prog_pt implies unique Arg and Res types.
-            // TODO-Soon: Program points should store argument + result types; we should check these dynamically here
-            let other : &Box<NaiveThunk<A,S,T>> = unsafe { transmute::<_,_>( other ) } ;
-            self.arg == other.arg
-        } else {
-            false
-        }
+            && other.arg().downcast_ref::<A>() == Some(&self.arg)
+    }
+    fn arg<'r>(self:&'r Self) -> &'r dyn Any {
+        & self.arg
     }
     fn fmt(&self, f:&mut Formatter) -> Result {
         write!(f,"NaiveThunk{{id:{:?},prog_pt:{:?},arg:{:?}}}",
-- 
2.43.0


From 1ef2dec2a17ab1275cd7e583104d73658f20a017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:53 +0000
Subject: [PATCH 15/34] fix: thunks made by thunk_map are equal only if source
 and function are

---
 src/engine.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 3047d7d..a240759 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2516,22 +2516,25 @@ pub fn thunk_map<Res1:Hash+Eq+Debug+Clone+'static,
                  Res2:Hash+Eq+Debug+Clone+'static>
     (thunk:Art<Res1>, map_fn:Rc<dyn Fn(Res1) -> Res2>) -> Art<Res2>
 {
+    // Two mapped thunks are equal when they map equal arts by the same
+    // function (functions are compared by their address).
+    let arg = (thunk, &*map_fn as *const _ as *const () as usize);
     Art{art:EnumArt::Force(
         Rc::new(NaiveThunk{
             id:NameChoice::Naive,
             prog_pt:ProgPt{symbol:"engine::thunk_map"},
-            fn_box:{Rc::new(Box::new(move |_,_| {
+            fn_box:{Rc::new(Box::new(move |(thunk,_):(Art<Res1>,usize),_| {
                 let res1 = force(&thunk);
                 let res2 = map_fn(res1);
                 res2
             }))},
-            arg:(),
+            arg:arg,
             spurious:()
         }))
     }
-    
+
 }
-    
+
 /// Demands and observes the value of an `&Art<T>`, returning a (cloned) value of type `T`.
 pub fn force<T:Hash+Eq+Debug+Clone+'static> (a:&Art<T>) -> T {
     match a.art {
-- 
2.43.0


From 29ece6555189f7e3f9724a4c2ebf4cfd91d8f570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 16/34] fix: NameChoice::Eager is eager under the naive engine
 too

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index a240759..55e7bf3 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2481,7 +2481,7 @@ pub fn thunk<Arg:Hash+Eq+Debug+Clone+'static,Spurious:Clone+'static,Res:Hash+Eq+
         match g.borrow().engine {
             // These cases do not involve the DCG (and must not borrow
             // it, since the eager function may use the engine).
-            Engine::DCG(_) if id == NameChoice::Eager => {
+            _ if id == NameChoice::Eager => {
                 Art{art:EnumArt::Rc(Rc::new(fn_box(arg, spurious)))}
             },
             Engine::DCG(_) if id == NameChoice::Naive => {
-- 
2.43.0


From c970ab75f557bbaef9de473f56fcff8d0e35e747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 17/34] fix: structural identity takes the type of the content
 into account

---
 src/engine.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 55e7bf3..4e45dea 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -1561,7 +1561,7 @@ impl Adapton for DCG {
                 if ! self.flags.ignore_nominal_use_structural {
                     (Rc::new(ArtId::Nominal(nm)), false) // Ordinary case: Use provided name.
                 } else {
-                    let hash = my_hash (&val) ;
+                    let hash = my_hash (&(TypeId::of::<T>(), &val)) ;
                     (Rc::new(ArtId::Structural(hash)), self.flags.use_purity_optimization) // Ignore the name; do hash-consing instead.
                 }
             };
@@ -1686,7 +1686,7 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(&prog_pt, &arg)) ;
+                let hash = my_hash (&(TypeId::of::<(Arg,Res)>(), &prog_pt, &arg)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
-- 
2.43.0


From 2c029cf3dae0088e129cbe7c88fd587b51c06b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 18/34] fix: list_gen generates the list of the given length

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index d0eef85..4760e80 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -63,7 +63,7 @@ pub fn list_gen<X:'static,G,L:ListIntro<X>>
   (len:usize, gen_elm:G) -> L
   where G:Fn(usize) -> X {
     let mut out : L = L::nil();
-    for i in len-1..0 {
+    for i in (0..len).rev() {
       let x = gen_elm(i);
       let nm = name_of_usize(i);
       out = L::art(cell(nm.clone(), out));
-- 
2.43.0


From 4a0f292451bbf83d9cfca54de5a38d10d733fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 19/34] fix: ListElim::is_name is true of lists that begin with
 a name

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 4760e80..71dad06 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -110,8 +110,8 @@ pub trait ListElim<X> : Debug+Clone+Hash+PartialEq+Eq {
   fn is_name (list:&Self) -> bool {
     Self::elim(list,
                |_|   false,
-               |_,_| true,
-               |_,_| false)
+               |_,_| false,
+               |_,_| true)
   }
 }
 
-- 
2.43.0


From a06a6b524304cf81fb8e3fa6db48943ffa3cf86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 20/34] fix: vec_of_list with a limit of zero gathers nothing

---
 src/catalog/collections.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 71dad06..7cb26d9 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -863,6 +863,7 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
   let mut out = vec![];
   let mut list = list ;
   loop {
+    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     let (hd, rest) =
       L::elim_arg(
         list, (),
@@ -871,7 +872,6 @@ pub fn vec_of_list<X:Clone,L:ListElim<X>+'static>
         |n, rest, _| { (Some(NameElse::Name(n.clone())), Some(rest)) }
         ) ;
     match hd { Some(x) => out.push(x), _ => () } ;
-    match limit { Some(limit) if out.len() == limit => return out, _ => () } ;
     match rest { Some(rest) => { list = rest; continue }, None => return out }
   }
 }
-- 
2.43.0


From acf0adce57d200cc198571f07cc690a3724949fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:14 +0000
Subject: [PATCH 21/34] fix: mergesort_list_of_tree2 uses each name once

---
 src/catalog/collections.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 7cb26d9..1b2904d 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -998,9 +998,10 @@ pub fn mergesort_list_of_tree2
   tree_fold_up_nm_dn
     (tree, nm,
      Rc::new(|_,|         L::nil()),
-     Rc::new(|m,x|        list_name_op(m, L::singleton(x))),
+     // The leaf and name cases may share a name; each uses a fork of its own.
+     Rc::new(|m:Option<Name>,x| list_name_op(m.map(|m| name_fork(m).0), L::singleton(x))),
      Rc::new(|_,    _, l, r| { list_merge_wrapper(None, l, None, r) }),
-     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(n), r) }),
+     Rc::new(|_, n, _, l, r| { list_merge_wrapper(None, l, Some(name_fork(n).1), r) }),
      )
 }
 
-- 
2.43.0


From e26be5e5d200e9ef860b1a565714a7529fb07a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:02 +0000
Subject: [PATCH 22/34] fix: the cells of prune_tree_of_tree do not clobber its
 memo tables

---
 src/catalog/collections.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/catalog/collections.rs b/src/catalog/collections.rs
index 1b2904d..fb19407 100644
--- a/src/catalog/collections.rs
+++ b/src/catalog/collections.rs
@@ -843,8 +843,8 @@ pub fn prune_tree_of_tree
     (tree,
      Rc::new(||          Ti::nil()),
      Rc::new(|x|         Ti::leaf(x)),
-     Rc::new(|lev,l,r|   bin_arts_niltest(None, lev, l, r)),
-     Rc::new(|n,lev,l,r| bin_arts_niltest(Some(n), lev, l, r))
+     Rc::new(|lev,l,r|   ns(name_unit(),|| bin_arts_niltest(None, lev, l, r))),
+     Rc::new(|n,lev,l,r| ns(name_unit(),|| bin_arts_niltest(Some(n), lev, l, r)))
      )
 }
 
-- 
2.43.0


From 22da42014c8a31a6aa306d7a3e78e4ed6219c35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 23/34] fix: reflecting values with structural articulations
 gives their locations

---
 src/parse_val.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index 9b0b7a5..5f8fe15 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -278,6 +278,8 @@ fn name_of_val ( n:&Val ) -> Name {
             }        
         },
         Val::Name(ref n) => n.clone(),
+        // The location of a structural articulation is a hash
+        Val::Const(Const::Nat(ref n)) => name_of_hash64( *n as u64 ),
         _ => panic!("expected a constructor for a NameSym")
     }
 }
-- 
2.43.0


From 52b973495f9faf4ae6092d5d57dca83851c5c12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 24/34] fix: names of hashes are reflected with their hash

---
 src/engine.rs    |  6 +++---
 src/parse_val.rs | 11 +++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 4e45dea..6da6068 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -431,7 +431,7 @@ impl Clone for     DCG { fn clone(&self) -> Self { unimplemented!() } }
 #[derive(Hash,PartialEq,Eq,Clone,Debug)]
 enum NameSym {
     Unit,           // Unit value for name symbols
-    Hash64,        // Hashes (for structural names); hash stored in name struct
+    Hash64(u64),   // Hashes (for structural names)
     String(String), // Strings encode globally-unique symbols.
     Usize(usize),   // USizes encode globally-unique symbols.
     Isize(isize),   // USizes encode globally-unique symbols.
@@ -443,7 +443,7 @@ enum NameSym {
 fn write_namesym<W:Write>(w:&mut W, n:&NameSym) -> Result {
     match *n {
         NameSym::Unit => write!(w, "▲"),
-        NameSym::Hash64 => write!(w, "(Hash64)"),
+        NameSym::Hash64(_) => write!(w, "(Hash64)"),
         NameSym::String(ref s) => write!(w, "{}", s),
         NameSym::Usize(ref n) => write!(w, "{}", n),
         NameSym::Isize(ref n) => write!(w, "{}", n),
@@ -2309,7 +2309,7 @@ pub fn name_pair (n1:Name, n2:Name) -> Name {
 pub fn name_of_hash64(h:u64) -> Name {
     // TODO: Get rid of need for Rc here;
     // Rc should be optional in names?
-    Name{ hash:h, symbol:Rc::new(NameSym::Hash64) }
+    Name{ hash:h, symbol:Rc::new(NameSym::Hash64(h)) }
 }
 
 /// Create a name from a `usize`
diff --git a/src/parse_val.rs b/src/parse_val.rs
index 5f8fe15..a3feb2c 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -243,7 +243,10 @@ fn name_of_val ( n:&Val ) -> Name {
                 name_unit()
             }
             else if *cons_name == name_of_str("Hash64") {
-                name_of_hash64( 0 ) // TODO/XXX
+                name_of_hash64( match cons_args[0] {
+                    Val::Const( Const::Nat( ref n ) ) => *n as u64,
+                    _ => panic!("expected a Nat"),
+                })
             }
             else if *cons_name == name_of_str("String") {
                 name_of_string( match cons_args[0] {
@@ -293,7 +296,11 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                 Some(name_unit())
             }
             else if *cons_name == name_of_str("Hash64") {
-                Some(name_of_hash64( 0 )) // XXX \ TODO -- We are actually missing the hash here!
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_hash64( *n as u64 ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("String") {
                 if cons_args.len() < 1 { None } else {
-- 
2.43.0


From c16083d2926355f61ed1b0071c8c59a9a9351856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 25/34] fix: names of integers with a sign can be reflected

---
 src/parse_val.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index a3feb2c..b21c9e6 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -261,7 +261,11 @@ fn name_of_val ( n:&Val ) -> Name {
                 })
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("")
+                name_of_isize( match cons_args[0] {
+                    Val::Const( Const::Num( ref n ) ) => n.clone(),
+                    Val::Const( Const::Nat( ref n ) ) => *n as isize,
+                    _ => panic!("expected a Num"),
+                })
             }
             else if *cons_name == name_of_str("Pair") {
                 let n1 = name_of_val( & cons_args[0] );
@@ -318,7 +322,12 @@ fn name_option_of_val ( n:&Val ) -> Option<Name> {
                     }}
             }
             else if *cons_name == name_of_str("Isize") {
-                panic!("TODO")
+                if cons_args.len() < 1 { None } else {
+                    match cons_args[0] {
+                        Val::Const( Const::Num( ref n ) ) => Some( name_of_isize( n.clone() ) ),
+                        Val::Const( Const::Nat( ref n ) ) => Some( name_of_isize( *n as isize ) ),
+                        _ => None,
+                    }}
             }
             else if *cons_name == name_of_str("Pair") {          
                 if cons_args.len() < 2 { None } else {
-- 
2.43.0


From b091be672df192bafe5ccebabb6cd8ef2647f4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:50 +0000
Subject: [PATCH 26/34] fix: strings with escapes or non-ASCII characters can
 be reflected

---
 src/parse_val.rs | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index b21c9e6..d3298ff 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -59,20 +59,43 @@ enum Tok {
 pub fn parse_val <V:Debug> (v:&V) -> Val {
     let s = format!("{:?}", v);
     //println!("reflect_val({:?})", v);
-    let toks = lex(s.into_bytes());
+    let toks = lex(s.chars().collect());
     //println!("toks = {:?}", toks);
     parse_toks(toks)
 }
 
+/// The character that an escape sequence stands for, without the
+/// backslash that begins the sequence.
+fn lex_escape (chars: &mut Vec<char>) -> Option<char> {
+    match chars.pop() {
+        Some('n') => Some('\n'),
+        Some('r') => Some('\r'),
+        Some('t') => Some('\t'),
+        Some('0') => Some('\0'),
+        Some('u') => {
+            // Unicode escapes have the form `\u{1f600}`
+            let mut code = 0;
+            loop {
+                match chars.pop() {
+                    Some('{') => continue,
+                    Some(c) if c.is_digit(16) => code = code * 16 + c.to_digit(16).unwrap(),
+                    _ => break
+                }
+            };
+            std::char::from_u32(code)
+        }
+        c => c
+    }
+}
+
 /// Tokenize the characters of input into lexical tokens of type `Tok`
-fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
+fn lex (mut chars: Vec<char>) -> Vec<Tok> {
     let mut toks = vec![];
     chars.reverse(); // TODO rewrite to avoid this
     loop {
         match chars.pop() {
             None => return toks,
             Some(c) => {
-                let c : char = c as char ;
                 if      c == ' ' { continue }
                 else if c == ':' { toks.push(Tok::Colon); continue }
                 else if c == ',' { toks.push(Tok::Comma); continue }
@@ -88,8 +111,14 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None => break,
                             Some(c) => {
-                                let c : char = c as char ;
-                                if c == '"' { break } else { 
+                                if c == '"' { break }
+                                else if c == '\\' {
+                                    match lex_escape(&mut chars) {
+                                        None => break,
+                                        Some(c) => string_chars.push(c),
+                                    }
+                                }
+                                else {
                                     string_chars.push(c);
                                     continue 
                                 }
@@ -107,12 +136,11 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if c >= '0' && c <= '9' { 
                                     digs.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
@@ -140,7 +168,6 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                         match chars.pop() {
                             None    => break,
                             Some(c) => { 
-                                let c : char = c as char ;
                                 if (c >= 'a' && c <= 'z') ||
                                     (c >= 'A' && c <= 'Z') ||
                                     (c >= '0' && c <= '9') ||
@@ -149,7 +176,7 @@ fn lex (mut chars: Vec<u8>) -> Vec<Tok> {
                                     ident.push(c); 
                                     continue 
                                 } else { 
-                                    chars.push(c as u8); 
+                                    chars.push(c); 
                                     break 
                                 }
                             }
-- 
2.43.0


From 09be6aac5d2bfc7c476f3ed3cab7e6a91d97ae3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 27/34] fix: the unit name is reflected as a name

---
 src/parse_val.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parse_val.rs b/src/parse_val.rs
index d3298ff..0ec8d59 100644
--- a/src/parse_val.rs
+++ b/src/parse_val.rs
@@ -427,6 +427,15 @@ fn parse_art_val ( i:&String, fields:&Vec<(Name, Val)> ) -> Option<Val> {
         }} else { None }           
 }
 
+/// A constructor with no arguments, which may be that of the unit name.
+fn parse_nullary ( i:String ) -> Val {
+    let v = Val::Constr(name_of_string(i), vec![]);
+    match name_option_of_val(&v) {
+        Some(n) => Val::Name(n),
+        None => v
+    }
+}
+
 /// Parse a value from the tokens `toks` and return it.  Panic if the next tokens do not parse into value.
 fn parse_val_rec (mut toks:Vec<Tok>) -> (Val, Vec<Tok>) {
     //println!("{:?}", toks);
@@ -450,7 +459,7 @@ fn parse_val_rec (mut toks:Vec<Tok>) -> (Val, Vec<Tok>) {
             match toks.pop() {
                 None => {
                     // Constructors with no arguments (e.g., Nil)
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (parse_nullary(i), toks)
                 }
                 Some(Tok::Left(BalTok::Brace)) => {
                     //println!("parsing struct: {:?}", i);
@@ -473,11 +482,11 @@ fn parse_val_rec (mut toks:Vec<Tok>) -> (Val, Vec<Tok>) {
                 },
                 Some(Tok::Comma) => {
                     toks.push(Tok::Comma);
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (parse_nullary(i), toks)
                 },
                 Some(Tok::Right(baltok)) => {
                     toks.push(Tok::Right(baltok));
-                    (Val::Constr(name_of_string(i), vec![]), toks)
+                    (parse_nullary(i), toks)
                 },
                 Some(t) => {
                     panic!("expected left balanced token, or comma, but instead found token {:?}", t)
-- 
2.43.0


From 92749543ef02735fc0c25f0b1a8884af476fc3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 28/34] fix: re-run a thunk created within structural with
 names ignored, as when it first ran

---
 src/engine.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/engine.rs b/src/engine.rs
index 6da6068..820b3a4 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -670,6 +670,7 @@ struct CompNode<Res> {
     succs    : Vec<Succ>,
     producer : Box<dyn Producer<Res>>, // Producer can be App<Arg,Res>, where type Arg is hidden.
     res      : Option<Res>,
+    ignore_nominal : bool, // Created within `structural`: The producer's names are ignored, whenever it runs.
 }
 
 impl reflect::Reflect<Vec<reflect::Pred>> for Vec<Pred> {
@@ -918,7 +919,7 @@ impl<Res:Hash> Hash for CompNode<Res> {
 /// `Node::Comp`.
 fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&Rc<Loc>) -> Res
 {
-    let (producer, prev_path) = {
+    let (producer, prev_path, prev_ignore_nominal) = {
         let st : &mut DCG = &mut *g.borrow_mut() ;
         let succs : Vec<Succ> = {
             let succs : Vec<Succ> = Vec::new();
@@ -930,16 +931,18 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
         //st.cnt.stack = if st.cnt.stack > st.stack.len() { st.cnt.stack } else { st.stack.len() } ;
         let prev_path = st.path.clone () ;
         st.path = loc.path.clone() ;
-        let producer : Box<dyn Producer<Res>> = {
+        let (producer, ignore_nominal) : (Box<dyn Producer<Res>>, bool) = {
             let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
             match *node {
-                Node::Comp(ref nd) => nd.producer.copy(),
+                Node::Comp(ref nd) => (nd.producer.copy(), nd.ignore_nominal),
                 _ => panic!("internal error"),
             }
         } ;
+        let prev_ignore_nominal =
+            replace(&mut st.flags.ignore_nominal_use_structural, ignore_nominal) ;
         //st.cnt.eval += 1 ;
         drop(st);  // End mutable borrow of global RefCell
-        (producer, prev_path)
+        (producer, prev_path, prev_ignore_nominal)
     };
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     // Invoke producer: Run the user's code, and get a result.
@@ -951,6 +954,7 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
     // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
     let st = &mut * g.borrow_mut() ;
     st.path = prev_path ;
+    st.flags.ignore_nominal_use_structural = prev_ignore_nominal ;
     let frame = match st.stack.pop() {
         None => panic!("expected Some _: stack invariants are broken"),
         Some(frame) => frame
@@ -1686,7 +1690,9 @@ impl Adapton for DCG {
             // Name the computation structurally, based on the args and prog point.
             NameChoice::Structural => {
                 wf::check_dcg(self);
-                let hash = my_hash (&(TypeId::of::<(Arg,Res)>(), &prog_pt, &arg)) ;
+                // (The computation differs when it ignores the names that it uses.)
+                let ignore_nominal = self.flags.ignore_nominal_use_structural ;
+                let hash = my_hash (&(TypeId::of::<(Arg,Res)>(), &prog_pt, &arg, ignore_nominal)) ;
                 let loc = loc_of_id(current_path(self),
                                     Rc::new(ArtId::Structural(hash)));
                 {   // If the node exists, return early.
@@ -1717,6 +1723,7 @@ impl Adapton for DCG {
                     succs:Vec::new(),
                     producer:producer,
                     res:None,
+                    ignore_nominal:ignore_nominal,
                 } ;
                 //self.cnt.create += 1;
                 self.table.insert(loc.clone(),
@@ -1758,6 +1765,7 @@ impl Adapton for DCG {
                                     succs:Vec::new(),
                                     producer:producer.copy(),
                                     res:None,
+                                    ignore_nominal:false,
                                 }) ;
                                 // do_dirty=true; do_insert=false
                                 (true, false, false)
@@ -1840,6 +1848,7 @@ impl Adapton for DCG {
                         succs:Vec::new(),
                         producer:Box::new(producer),
                         res:None,
+                        ignore_nominal:false,
                     } ;
                     self.table.insert(loc.clone(), Box::new(Node::Comp(node)));
                     wf::check_dcg(self);
-- 
2.43.0


From eacb906757701309596d046a5de73a78e7f38b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:28 +0000
Subject: [PATCH 29/34] fix: names made from an isize hashed as those made from
 the usize with the same bits

---
 src/engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 820b3a4..d1ad4db 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2330,8 +2330,8 @@ pub fn name_of_usize (u:usize) -> Name {
 
 /// Create a name from a `isize`
 pub fn name_of_isize (i:isize) -> Name {
-    let h = my_hash(&i) ;
     let s = NameSym::Isize(i) ;
+    let h = my_hash(&s) ; // (The bits alone are also those of a `usize`.)
     Name{ hash:h, symbol:Rc::new(s) }
 }
 
-- 
2.43.0


From a597ceacc315896a0738fa8efde22d1f6e1f2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 30/34] fix: a panic in a computation left the engine unusable

---
 src/engine.rs | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/engine.rs b/src/engine.rs
index d1ad4db..8bf7be2 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -23,6 +23,7 @@ use std::collections::hash_map::DefaultHasher;
 use std::mem::replace;
 use std::mem::transmute;
 use std::rc::Rc;
+use std::thread;
 use std::fmt::Write;
 
 use crate::macros::{ProgPt};
@@ -914,6 +915,48 @@ impl<Res:Hash> Hash for CompNode<Res> {
 /// re-evaluation.
 // - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -
 
+/// While it lives, a panic (of the user's code) is followed by restoring
+/// the engine's registers to what they were when it was created: The
+/// evaluations that have begun since then will not be finished.
+struct OnPanic<'a> {
+    g:&'a RefCell<DCG>,
+    stack:usize,
+    cleaning:usize,
+    path:Rc<Path>,
+    ignore_nominal:bool,
+    traces:usize,
+}
+impl<'a> OnPanic<'a> {
+    fn restore(g:&'a RefCell<DCG>) -> OnPanic<'a> {
+        let st = &*g.borrow();
+        OnPanic{
+            g:g,
+            stack:st.stack.len(),
+            cleaning:st.cleaning.len(),
+            path:st.path.clone(),
+            ignore_nominal:st.flags.ignore_nominal_use_structural,
+            traces:trace_depth(),
+        }
+    }
+}
+impl<'a> Drop for OnPanic<'a> {
+    fn drop(&mut self) {
+        if !thread::panicking() { return }
+        if let Ok(mut st) = self.g.try_borrow_mut() {
+            st.stack.truncate(self.stack);
+            st.cleaning.truncate(self.cleaning);
+            st.path = self.path.clone();
+            st.flags.ignore_nominal_use_structural = self.ignore_nominal;
+        }
+        while trace_depth() > self.traces { dcg_effect_end!() }
+    }
+}
+
+/// The number of effects whose extent is being recorded, if any.
+fn trace_depth() -> usize {
+    TRACES.with(|tr| match *tr.borrow() { None => 0, Some(ref ts) => ts.stack.len() })
+}
+
 /// Re-evaluation: `loc_produce` performs the computation at `loc`,
 /// and produces a result of type `Res`.  Error if `loc` is not a
 /// `Node::Comp`.
@@ -924,6 +967,8 @@ fn loc_produce<Res:'static+Debug+PartialEq+Eq+Clone+Hash>(g:&RefCell<DCG>, loc:&
         let succs : Vec<Succ> = {
             let succs : Vec<Succ> = Vec::new();
             let node : &mut Node<Res> = res_node_of_loc( st, loc ) ;
+            // (If the producer panics, there is neither a result nor edges.)
+            if let Node::Comp(ref mut nd) = *node { nd.res = None }
             replace(node.succs_mut(), succs)
         } ;
         revoke_succs( st, loc, &succs );
@@ -1528,6 +1573,7 @@ impl Adapton for DCG {
     fn structural<T,F> (g: &RefCell<DCG>, body:F) -> T
         where F:FnOnce() -> T
     {
+        let _on_panic = OnPanic::restore(g);
         let saved = {
             let st = &mut *g.borrow_mut();
             let saved = st.flags.ignore_nominal_use_structural ;
@@ -1542,6 +1588,7 @@ impl Adapton for DCG {
     fn ns<T,F> (g: &RefCell<DCG>, nm:Name, body:F) -> T
         where F:FnOnce() -> T
     {
+        let _on_panic = OnPanic::restore(g);
         let saved = {
             let st = &mut *g.borrow_mut();
             let saved = st.path.clone();
@@ -2004,6 +2051,7 @@ impl Adapton for DCG {
         match *art {
             AbsArt::Rc(ref v) => (**v).clone(),
             AbsArt::Loc(ref loc) => {
+                let _on_panic = OnPanic::restore(g);
                 let (is_comp, is_dup, is_pure, is_cycle, cached_result) : (bool, bool, bool, bool, Option<T>) = {
                     let st : &mut DCG = &mut *g.borrow_mut();
                     let is_pure_opt : bool = st.flags.use_purity_optimization ;
-- 
2.43.0


From b0fca687ad35d4cbdb5d938e3a5b256fe64f29f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:35 +0000
Subject: [PATCH 31/34] fix: the drawings of the graph miss changes of its
 edges

With ADAPTON_WRITE_DCG, the graph is drawn when it has changed, as told by
its debugging string. That of a node does not show its edges, so neither
new, nor dirtied, nor cleaned edges made for a new drawing.
---
 src/engine.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index 8bf7be2..a66ee88 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -2808,7 +2808,11 @@ mod wf {
 
     pub fn check_dcg (st:&mut DCG) {
         if st.flags.write_dcg {
-            let dcg_hash = my_hash(format!("{:?}",st.table)); // XXX: This assumes that the table's debugging string identifies it uniquely
+            // XXX: This assumes that the debugging strings identify the nodes
+            // uniquely. (Those of nodes do not show their edges.)
+            let edges : Vec<Option<&Vec<super::Succ>>> =
+                st.table.values().map(|nd| if nd.succs_def() { Some(nd.succs()) } else { None }).collect();
+            let dcg_hash = my_hash(format!("{:?}",(&st.table, &edges, &st.stack)));
             if dcg_hash != st.dcg_hash {
                 println!("adapton: dcg #{} hash: {:?}", st.dcg_count, dcg_hash);
                 st.dcg_hash = dcg_hash;
-- 
2.43.0


From 8acd80a2d0adae59bea12538c301c2a88b4e3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:27 +0000
Subject: [PATCH 32/34] fix: a set panics, and leaves observers stale, where a
 projection is partial

---
 src/engine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine.rs b/src/engine.rs
index a66ee88..fe01e7e 100644
--- a/src/engine.rs
+++ b/src/engine.rs
@@ -22,6 +22,7 @@ use std::hash::{Hash,Hasher};
 use std::collections::hash_map::DefaultHasher;
 use std::mem::replace;
 use std::mem::transmute;
+use std::panic::{catch_unwind,AssertUnwindSafe};
 use std::rc::Rc;
 use std::thread;
 use std::fmt::Write;
@@ -1376,7 +1377,12 @@ fn dirty_pred_observers(st:&mut DCG, loc:&Rc<Loc>) {
     for (pred_loc, dep) in pred_locs {
         let stop : bool = match dep {
             None => false,
-            Some(dep) => dep.dirty(st, loc).changed == false
+            // (A mapping function that panics for the new content gives no
+            // result; this is up to the next demand of the observer, if any.)
+            Some(dep) => match catch_unwind(AssertUnwindSafe(|| dep.dirty(st, loc))) {
+                Ok(res) => res.changed == false,
+                Err(_)  => false,
+            }
         };
         let stop : bool = if stop { true } else {
             // The stop bit communicates information from st for use below.
-- 
2.43.0


From 0997e0d0350752fb1d473e536c9c904eefc3aa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:04 +0000
Subject: [PATCH 33/34] fix: tries that differ have one hash, as an unnamed
 articulation and its content do

---
 src/catalog/trie.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/catalog/trie.rs b/src/catalog/trie.rs
index c0ff28c..c224c1c 100644
--- a/src/catalog/trie.rs
+++ b/src/catalog/trie.rs
@@ -1,6 +1,7 @@
 use std::fmt::Debug;
 use std::hash::{Hash, Hasher};
 use std::collections::hash_map::DefaultHasher;
+use std::mem;
 use std::rc::Rc;
 use std::cmp::min;
 
@@ -273,6 +274,8 @@ impl<X: Debug + Hash + PartialEq + Eq + Clone + 'static> TrieIntro<X> for Trie<X
 
 impl<X: Debug + Hash + PartialEq + Eq + Clone + 'static> Hash for Trie<X> {
     fn hash<H: Hasher>(&self, state: &mut H) {
+        // (An unnamed articulation hashes as its content, for instance.)
+        mem::discriminant(self).hash(state);
         match *self {
             Trie::Nil(bs) => bs.hash(state),
             Trie::Leaf(bs, ref x) => {
@@ -286,7 +289,7 @@ impl<X: Debug + Hash + PartialEq + Eq + Clone + 'static> Hash for Trie<X> {
             }
             Trie::Root(ref md, ref t) => {
                 t.hash(state);
-                md.hash_seeded(state.finish());
+                md.hash(state); // (`hash_seeded` does not affect `state`.)
             }
             Trie::Name(ref nm, ref t) => {
                 t.hash(state);
-- 
2.43.0


From f8eb34f32a886affd807b6daa7c3803e5b7e53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:25 +0000
Subject: [PATCH 34/34] fix: eager! takes instances of a generic function for
 one function

---
 src/macros.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 83c0d92..b2005b4 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -722,7 +722,7 @@ macro_rules! eager {
   ( $nm:expr =>> $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
     let t = thunk
       (NameChoice::Nominal($nm),
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f :: < $( $ty ),* >)),
        Rc::new(Box::new(
          |args, _|{
            let ($( $lab ),*) = args ;
@@ -754,7 +754,7 @@ macro_rules! eager {
   ( $f:ident :: < $( $ty:ty ),* > , $( $lab:ident : $arg:expr ),* ) => {{
     let t = thunk
       (NameChoice::Structural,
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f :: < $( $ty ),* >)),
        Rc::new(Box::new(
          |args, _|{
            let ($( $lab ),*) = args ;
@@ -786,7 +786,7 @@ macro_rules! eager {
   ( $nm:expr =>> $f:ident =>> < $( $ty:ty ),* > , $( $lab1:ident : $arg1:expr ),* ;; $( $lab2:ident : $arg2:expr ),* ) => {{
     let t = thunk
       (NameChoice::Nominal($nm),
-       prog_pt!(stringify!($f)),
+       prog_pt!(stringify!($f :: < $( $ty ),* >)),
        Rc::new(Box::new(
          |args1, args2|{
            let ($( $lab1 ),*, _) = args1 ;
-- 
2.43.0

