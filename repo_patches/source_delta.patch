From 12a03ecdab438d9076cf3fd4d0b9b2b083ad084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 01/80] fix: inertial assignment kept non-adjacent transactions
 inside the rejection window

LRM 08 10.5.2.2 marks an old transaction in the pulse rejection interval
only if it immediately precedes a marked transaction with the same value.
Transactions separated from the new one by a deleted transaction with a
different value were kept.
---
 src/rt/model.c | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fc5bd30..b99455c 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2566,18 +2566,29 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
 {
    waveform_t *last = &(source->u.driver.waveforms);
    waveform_t *it   = last->next;
+
+   // Transactions before the pulse rejection interval are always kept
+   for (; it != NULL && it->when < when - reject; it = it->next) {
+      assert(it->when >= m->now);
+      last = it;
+   }
+
+   // Within the interval keep only the run of transactions immediately
+   // preceding the new one with the same value (LRM 08 section 10.5.2.2)
+   waveform_t *keep = last;
    while (it != NULL && it->when < when) {
-      // If the current transaction is within the pulse rejection interval
-      // and the value is different to that of the new transaction then
-      // delete the current transaction
       assert(it->when >= m->now);
-      if (it->when >= when - reject
-          && !cmp_values(nexus, it->value, w->value)) {
-         waveform_t *next = it->next;
-         last->next = next;
-         free_value(nexus, it->value);
-         free_waveform(m, it);
-         it = next;
+      if (!cmp_values(nexus, it->value, w->value)) {
+         // Delete this and all earlier transactions in the interval
+         waveform_t *end = it->next;
+         for (waveform_t *del = keep->next, *next; del != end; del = next) {
+            next = del->next;
+            free_value(nexus, del->value);
+            free_waveform(m, del);
+         }
+         keep->next = end;
+         last = keep;
+         it = end;
       }
       else {
          last = it;
-- 
2.43.0


From 6811d6e293e57aae5c8a8a4638fbc53ff6626f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:19 +0000
Subject: [PATCH 02/80] fix: null transactions lost or corrupting the waveform

A null transaction was stored with the negated time, which compared as an
enormous unsigned value: any later assignment deleted it even if it was
earlier than the new transaction, and splitting the signal dereferenced its
absent value and lost the disconnected state of the driver.  Use a separate
flag instead.
---
 src/rt/model.c   | 27 +++++++++++++++------------
 src/rt/structs.h |  3 ++-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index b99455c..9d3752a 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1259,6 +1259,7 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
 
          waveform_t *w0 = &(src->u.driver.waveforms);
          w0->when  = TIME_HIGH;
+         w0->null  = 0;
          w0->next  = NULL;
       }
       break;
@@ -1510,10 +1511,13 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          waveform_t *w_new = &(new->u.driver.waveforms);
          waveform_t *w_old = &(old->u.driver.waveforms);
          w_new->when = w_old->when;
+         w_new->null = w_old->null;
          w_new->next = NULL;
 
          split_value(nexus, &w_new->value, &w_old->value, offset);
 
+         new->disconnected = old->disconnected;
+
          // Pending fast driver update
          if ((nexus->flags & NET_F_FAST_DRIVER) && old->fastqueued) {
             rt_nexus_t *n0 = &(nexus->signal->nexus);
@@ -1528,6 +1532,7 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
          for (w_old = w_old->next; w_old; w_old = w_old->next) {
             w_new = (w_new->next = alloc_waveform(m));
             w_new->when = w_old->when;
+            w_new->null = w_old->null;
             w_new->next = NULL;
 
             split_value(nexus, &w_new->value, &w_old->value, offset);
@@ -2578,7 +2583,8 @@ static inline bool insert_transaction(rt_model_t *m, rt_nexus_t *nexus,
    waveform_t *keep = last;
    while (it != NULL && it->when < when) {
       assert(it->when >= m->now);
-      if (!cmp_values(nexus, it->value, w->value)) {
+      if (it->null != w->null
+          || (!w->null && !cmp_values(nexus, it->value, w->value))) {
          // Delete this and all earlier transactions in the interval
          waveform_t *end = it->next;
          for (waveform_t *del = keep->next, *next; del != end; del = next) {
@@ -2660,6 +2666,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          // A fast update to this driver is already scheduled
          waveform_t *w0 = alloc_waveform(m);
          w0->when  = m->now;
+         w0->null  = 0;
          w0->next  = NULL;
          w0->value = alloc_value(m, n);
 
@@ -2674,6 +2681,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
+      w->null  = 0;
       w->next  = NULL;
       w->value = alloc_value(m, n);
 
@@ -2696,9 +2704,10 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    nexus->flags &= ~NET_F_FAST_DRIVER;
 
    waveform_t *w = alloc_waveform(m);
-   w->when = -when;   // Use sign bit to represent null
-   w->next = NULL;
-   w->value.qword = 0;
+   w->when  = when;
+   w->null  = 1;
+   w->next  = NULL;
+   w->value = alloc_value(m, nexus);
 
    if (!insert_transaction(m, nexus, d, w, when, reject))
       deltaq_insert_driver(m, after, d);
@@ -3023,14 +3032,7 @@ static void update_driver(rt_model_t *m, rt_nexus_t *n, rt_source_t *source)
       free_value(n, w_now->value);
       *w_now = *w_next;
       free_waveform(m, w_next);
-      source->disconnected = 0;
-      update_driving(m, n, false);
-   }
-   else if (unlikely(w_next != NULL && w_next->when == -m->now)) {
-      // Disconnect source due to null transaction
-      *w_now = *w_next;
-      free_waveform(m, w_next);
-      source->disconnected = 1;
+      source->disconnected = w_now->null;
       update_driving(m, n, false);
    }
 }
@@ -3150,6 +3152,7 @@ static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp)
          // TODO: this should happen inside the callback
          waveform_t *w = alloc_waveform(m);
          w->when  = m->now + imp->delay;
+         w->null  = 0;
          w->next  = NULL;
          w->value = alloc_value(m, n0);
 
diff --git a/src/rt/structs.h b/src/rt/structs.h
index e5f28ab..238decf 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -98,7 +98,8 @@ typedef union {
 STATIC_ASSERT(sizeof(rt_value_t) == 8);
 
 struct waveform {
-   uint64_t    when;
+   uint64_t    null : 1;    // Null transaction
+   uint64_t    when : 63;
    waveform_t *next;
    rt_value_t  value;
 };
-- 
2.43.0


From 563b09f24d3e21b5e5fdb81499f0e78911ee4b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 03/80] fix: activity of parts of a split signal lost for
 implicit signals

When a signal with an implicit 'TRANSACTION, 'STABLE or 'QUIET signal was
split more than once the parts created by the later splits were not
connected to the implicit signal, and with several implicit signals some
were disconnected altogether.
---
 src/rt/model.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9d3752a..46422d2 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1613,11 +1613,17 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
          new->outputs = old_o;
          add_conversion_input(m, old_o->u.port.conv_func, new);
       }
+      else if (old_o->tag == SOURCE_IMPLICIT) {
+         // Each part of the signal needs its own source on the implicit
+         // signal as it may be split again later
+         rt_source_t *s = add_source(m, old_o->u.port.output, SOURCE_IMPLICIT);
+         s->u.port.input = new;
+         s->chain_output = new->outputs;
+         new->outputs = s;
+      }
       else {
          rt_nexus_t *out_n;
-         if (old_o->tag == SOURCE_IMPLICIT)
-            out_n = old_o->u.port.output;
-         else if (old_o->u.port.output->width == offset)
+         if (old_o->u.port.output->width == offset)
             out_n = old_o->u.port.output->chain;   // Cycle breaking
          else {
             RT_LOCK(old_o->u.port.output->signal->lock);
-- 
2.43.0


From a7a2d50972997ca381fce0bc2c3e4cc15945f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:40 +0000
Subject: [PATCH 04/80] fix: inertial assignment deleted equal transactions of
 a split signal

After a signal is split into elements the unused bytes of the values of
pending transactions may contain parts of the neighbouring elements.  These
must not be compared.
---
 src/rt/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 46422d2..e34e01b 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1153,7 +1153,7 @@ static inline bool cmp_values(rt_nexus_t *n, rt_value_t a, rt_value_t b)
 {
    const size_t valuesz = n->width * n->size;
    if (valuesz <= sizeof(rt_value_t))
-      return a.qword == b.qword;
+      return cmp_bytes(a.bytes, b.bytes, valuesz);   // Rest may be garbage
    else
       return cmp_bytes(a.ext, b.ext, valuesz);
 }
-- 
2.43.0


From f884b7de4f9d52348b7123f635af7d8b077976fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 05/80] fix: activity from zero-delay assignments of the
 current value

Assigning the value a driver already has marked the driver as active at
once.  A second such assignment in the same cycle cleared the activity
of the current cycle, a later inertial assignment could not delete the
transaction again, and 'last_active changed a cycle too early.
---
 src/rt/model.c   | 12 +-----------
 src/rt/structs.h |  1 -
 2 files changed, 1 insertion(+), 12 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index e34e01b..f684b17 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1526,8 +1526,6 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
             new->fastqueued = 1;
          }
 
-         new->was_active = old->was_active;
-
          // Future transactions
          for (w_old = w_old->next; w_old; w_old = w_old->next) {
             w_new = (w_new->next = alloc_waveform(m));
@@ -2632,7 +2630,6 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       assert(n->n_sources == 1);
 
       waveform_t *w = &d->u.driver.waveforms;
-      w->when = m->now;
       assert(w->next == NULL);
 
       rt_signal_t *signal = n->signal;
@@ -2644,12 +2641,6 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
          assert(m->next_is_delta);
          d->fastqueued = 1;
       }
-      else if (cmp_bytes(value, value_ptr(n, &w->value), n->width * n->size)) {
-         m->next_is_delta = true;
-         d->was_active = (n->active_delta == m->iteration);
-         n->active_delta = m->iteration + 1;
-         return;
-      }
       else if (signal->shared.flags & NET_F_FAST_DRIVER) {
          deferq_do(&m->delta_driverq, async_fast_all_drivers, signal);
          m->next_is_delta = true;
@@ -3053,6 +3044,7 @@ static void fast_update_driver(rt_model_t *m, rt_nexus_t *nexus)
       assert(src->tag == SOURCE_DRIVER);
       assert(src->u.driver.waveforms.next == NULL);
 
+      src->u.driver.waveforms.when = m->now;
       update_driving(m, nexus, false);
    }
    else
@@ -3715,8 +3707,6 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
                   && s->u.driver.waveforms.when == m->now) {
             if (nexus->active_delta == m->iteration)
                return true;
-            else if (nexus->active_delta == m->iteration + 1 && s->was_active)
-               return true;
          }
       }
    }
diff --git a/src/rt/structs.h b/src/rt/structs.h
index 238decf..d89a5f4 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -163,7 +163,6 @@ typedef struct _rt_source {
    unsigned        fastqueued : 1;
    unsigned        sigqueued : 1;
    unsigned        pseudoqueued : 1;
-   unsigned        was_active : 1;
    union {
       rt_port_t   port;
       rt_driver_t driver;
-- 
2.43.0


From 12481b58d6373d8a3b4384cb38e57fc2d52b374b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 06/80] fix: process (s) with "if s'event and s = V" ran its
 body without an event

The trigger for such a condition leaves out the 'event test but the
process also runs at initialisation, and a postponed one in a cycle
without an event.
---
 src/lower.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 9b35f29..dc627b1 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11308,6 +11308,25 @@ static vcode_reg_t lower_process_trigger(lower_unit_t *lu, tree_t proc)
       return emit_or_trigger(branches[0], branches[1]);
 }
 
+static bool lower_trigger_is_exact(tree_t proc)
+{
+   // The 'event test in a condition like "clk'event and clk = '1'" is not
+   // part of the trigger but the process may also run without an event:
+   // at initialisation or if it is postponed
+
+   tree_t s0 = tree_stmt(proc, 0);
+   assert(tree_kind(s0) == T_IF);
+
+   const int nconds = tree_conds(s0);
+   for (int i = 0; i < nconds; i++) {
+      tree_t value = tree_value(tree_cond(s0, i));
+      if (tree_subkind(tree_ref(value)) == S_SCALAR_AND)
+         return false;
+   }
+
+   return true;
+}
+
 void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
 {
    assert(tree_kind(proc) == T_PROCESS);
@@ -11410,7 +11429,7 @@ void lower_process(lower_unit_t *parent, tree_t proc, driver_set_t *ds)
 
    if (transfer)
       emit_return(VCODE_INVALID_REG);
-   else if (trigger_reg != VCODE_INVALID_REG) {
+   else if (trigger_reg != VCODE_INVALID_REG && lower_trigger_is_exact(proc)) {
       tree_t s0 = tree_stmt(proc, 0);
       assert(tree_kind(s0) == T_IF);
       lower_stmt_coverage(lu, s0);
-- 
2.43.0


From 44c4cfdb49c9ff01d538b4bf303ed30c0c0ed981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 07/80] fix: crash on a process triggered by a real signal
 compared with a literal

---
 src/lower.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index dc627b1..19e7fa2 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -11195,6 +11195,8 @@ static vcode_reg_t lower_trigger(lower_unit_t *lu, tree_t fcall, tree_t proc)
          return VCODE_INVALID_REG;
       else if (!is_literal(p1))
          return VCODE_INVALID_REG;
+      else if (type_is_real(tree_type(p0)))
+         return VCODE_INVALID_REG;   // Comparison is of integers only
 
       vcode_reg_t left_reg = lower_lvalue(lu, p0);
       vcode_reg_t right_reg = lower_rvalue(lu, p1);
-- 
2.43.0


From a5117a45b3def274fbc1320353490ce8b61841f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:27 +0000
Subject: [PATCH 08/80] fix: process triggered by comparison with a negative
 literal never ran

---
 src/rt/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index f684b17..9ddc78e 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2804,7 +2804,7 @@ static bool run_trigger(rt_model_t *m, rt_trigger_t *t)
 
 #define COMPARE_SCALAR(type) do {                                       \
             const type *data = (type *)s->shared.data;                  \
-            t->result.integer = (data[offset] == right);                \
+            t->result.integer = (data[offset] == (type)right);          \
       } while (0)
 
          FOR_ALL_SIZES(s->nexus.size, COMPARE_SCALAR);
-- 
2.43.0


From 4473624df95819228b3181a68b3a79e776718d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:17 +0000
Subject: [PATCH 09/80] fix: initial value of S'DELAYED is that of S

---
 src/lower.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 19e7fa2..76cabb8 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8203,8 +8203,9 @@ static void lower_implicit_decl(lower_unit_t *parent, tree_t decl)
 
    case IMPLICIT_DELAYED:
       {
-         vcode_reg_t init_reg =
-            lower_default_value(parent, type, VCODE_INVALID_REG);
+         // The initial value is the initial value of the prefix
+         tree_t prefix = tree_value(tree_value(decl));
+         vcode_reg_t init_reg = lower_rvalue(parent, prefix);
 
          lower_sub_signals(parent, type, type, type, decl, NULL, var,
                            VCODE_INVALID_REG, init_reg, VCODE_INVALID_REG,
-- 
2.43.0


From 35482e8b16e0890084b13f6de7eb28fdc2a9b63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:51 +0000
Subject: [PATCH 10/80] fix: 'last_value before the first event of a signal
 that is both read and driven through ports

---
 src/rt/model.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9ddc78e..9f0f61d 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2447,6 +2447,7 @@ void model_reset(rt_model_t *m)
       n->flags &= ~NET_F_PENDING;
 
       calculate_effective_value(m, n);
+      memcpy(nexus_last_value(n), nexus_effective(n), n->size * n->width);
    }
 
    tlab_reset(thread->tlab);   // No allocations can be live past here
-- 
2.43.0


From 9e5b977309570c7d68ad9c5a8265804f35e2fbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 11/80] fix: S'TRANSACTION had an event at initialisation

---
 src/rt/model.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 9f0f61d..2cacbd3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1999,8 +1999,10 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
       }
       else if (unlikely(s->tag == SOURCE_IMPLICIT)) {
          // At least one of the inputs is active so schedule an update
-         // to the value of an implicit 'TRANSACTION or 'QUIET signal
-         schedule_implicit_update(m, n);
+         // to the value of an implicit 'TRANSACTION or 'QUIET signal: but
+         // there are no transactions during initialisation
+         if (m->iteration >= 0)
+            schedule_implicit_update(m, n);
          return;
       }
       else if (s0 == NULL)
@@ -4406,13 +4408,18 @@ sig_shared_t *x_implicit_signal(uint32_t count, uint32_t size, tree_t where,
    imp->delay = delay;
    imp->wakeable.kind = W_IMPLICIT;
 
-   deferq_do(&m->implicitq, async_update_implicit_signal, imp);
-   set_pending(&(imp->wakeable));
+   if (kind == IMPLICIT_GUARD) {
+      // The initial value is that of the guard expression
+      deferq_do(&m->implicitq, async_update_implicit_signal, imp);
+      set_pending(&(imp->wakeable));
+   }
 
    if (kind == IMPLICIT_STABLE || kind == IMPLICIT_QUIET) {
       add_source(m, &(imp->signal.nexus), SOURCE_DRIVER);
       imp->signal.shared.data[0] = 1;    // X'STABLE initally true
    }
+   else if (kind == IMPLICIT_TRANSACTION)
+      imp->signal.shared.data[0] = 1;
 
    return &(imp->signal.shared);
 }
-- 
2.43.0


From 662871b05e69776e118b648fe3762e6c501d2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:02 +0000
Subject: [PATCH 12/80] fix: S'LAST_EVENT counted the initialisation of S as an
 event

---
 src/rt/model.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 2cacbd3..e5ff93e 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -2923,7 +2923,11 @@ static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value)
 
    const size_t valuesz = n->size * n->width;
 
-   if (!cmp_bytes(eff, value, valuesz)) {
+   if (unlikely(m->iteration < 0)) {
+      // Setting the initial value is not an event
+      memcpy(eff, value, valuesz);
+   }
+   else if (!cmp_bytes(eff, value, valuesz)) {
       copy2(last, eff, value, valuesz);
       notify_event(m, n);
    }
-- 
2.43.0


From 73cea9aec4b461484ec96a3fcc6ee09651c83857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:32 +0000
Subject: [PATCH 13/80] fix: pending zero-delay assignment lost or taken as the
 driving value

When a driver that is updated without a projected output waveform is
given other transactions, is disconnected, or gets another source such
as a force, move the pending update to the waveform and restore the
current value of the driver, and return the value of the driver, not
the resolved or effective value of the signal, for 'DRIVING_VALUE.
---
 src/rt/model.c | 60 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index e5ff93e..92fa7cd 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -161,6 +161,7 @@ static bool __trace_on = false;
 static void *source_value(rt_nexus_t *nexus, rt_source_t *src);
 static void free_value(rt_nexus_t *n, rt_value_t v);
 static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset);
+static waveform_t *alloc_waveform(rt_model_t *m);
 static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void put_effective(rt_model_t *m, rt_nexus_t *n, const void *value);
 static void update_implicit_signal(rt_model_t *m, rt_implicit_t *imp);
@@ -1222,6 +1223,32 @@ static void check_multiple_sources(rt_nexus_t *n, source_kind_t kind)
    jit_abort_with_status(EXIT_FAILURE);
 }
 
+static void clear_fast_driver(rt_model_t *m, rt_nexus_t *n)
+{
+   rt_source_t *d = &(n->sources);
+
+   if ((n->flags & NET_F_FAST_DRIVER) && n->n_sources > 0 && d->fastqueued) {
+      // A fast update to this driver is already scheduled: move it to
+      // the projected output waveform and restore the current value
+      waveform_t *w_now = &(d->u.driver.waveforms);
+      assert(w_now->next == NULL);
+
+      waveform_t *w0 = alloc_waveform(m);
+      w0->when  = m->now;
+      w0->null  = 0;
+      w0->next  = NULL;
+      w0->value = alloc_value(m, n);
+
+      copy_value_ptr(n, &w0->value, value_ptr(n, &w_now->value));
+      copy_value_ptr(n, &w_now->value, n->flags & NET_F_EFFECTIVE
+                     ? nexus_driving(n) : nexus_effective(n));
+
+      w_now->next = w0;
+   }
+
+   n->flags &= ~NET_F_FAST_DRIVER;
+}
+
 static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
 {
    rt_source_t *src = NULL;
@@ -1241,7 +1268,7 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
       n->n_sources++;
 
    if (n->n_sources > 1)
-      n->flags &= ~NET_F_FAST_DRIVER;
+      clear_fast_driver(m, n);
 
    src->chain_input  = NULL;
    src->chain_output = NULL;
@@ -2662,22 +2689,7 @@ static void sched_driver(rt_model_t *m, rt_nexus_t *n, uint64_t after,
       rt_source_t *d = find_driver(n, proc);
       assert(d != NULL);
 
-      if ((n->flags & NET_F_FAST_DRIVER) && d->fastqueued) {
-         // A fast update to this driver is already scheduled
-         waveform_t *w0 = alloc_waveform(m);
-         w0->when  = m->now;
-         w0->null  = 0;
-         w0->next  = NULL;
-         w0->value = alloc_value(m, n);
-
-         const uint8_t *prev = value_ptr(n, &(d->u.driver.waveforms.value));
-         copy_value_ptr(n, &w0->value, prev);
-
-         assert(d->u.driver.waveforms.next == NULL);
-         d->u.driver.waveforms.next = w0;
-      }
-
-      n->flags &= ~NET_F_FAST_DRIVER;
+      clear_fast_driver(m, n);
 
       waveform_t *w = alloc_waveform(m);
       w->when  = m->now + after;
@@ -2701,7 +2713,7 @@ static void sched_disconnect(rt_model_t *m, rt_nexus_t *nexus, uint64_t after,
    const uint64_t when = m->now + after;
 
    // Need update_driver to clear disconnected flag
-   nexus->flags &= ~NET_F_FAST_DRIVER;
+   clear_fast_driver(m, nexus);
 
    waveform_t *w = alloc_waveform(m);
    w->when  = when;
@@ -3877,6 +3889,10 @@ void x_drive_signal(sig_shared_t *ss, uint32_t offset, int32_t count)
          s = add_source(m, n, SOURCE_DRIVER);
          s->u.driver.waveforms.value = alloc_value(m, n);
          s->u.driver.proc = proc;
+
+         // The value of the driver may differ from that of the signal
+         if (n->signal->resolution != NULL && !(n->flags & NET_F_R_IDENT))
+            n->flags &= ~NET_F_FAST_DRIVER;
       }
 
       count -= n->width;
@@ -4380,10 +4396,12 @@ void *x_driving_value(sig_shared_t *ss, uint32_t offset, int32_t count)
                  "for %s", istr(proc->name), istr(tree_ident(s->where)));
 
       const uint8_t *driving;
-      if (n->flags & NET_F_FAST_DRIVER)
-         driving = nexus_effective(n);
-      else
+      if (!(n->flags & NET_F_FAST_DRIVER))
          driving = value_ptr(n, &(src->u.driver.waveforms.value));
+      else if (n->flags & NET_F_EFFECTIVE)
+         driving = nexus_driving(n);
+      else
+         driving = nexus_effective(n);
 
       memcpy(p, driving, n->width * n->size);
       p += n->width * n->size;
-- 
2.43.0


From 5669e6e580afda964f23f8e320009bf0f8b7726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 14/80] fix: force and release of split, undriven and inactive
 signals

A force or release scheduled in the same delta cycle in which the signal
is split crashed, a released part was forced again after a split, the
default value of an undriven signal was overwritten by a force if its
activity is observed, an undriven register signal kept its forced value
after the release, and 'active ignored forces and releases.
---
 src/rt/model.c   | 42 +++++++++++++++++++++++++++---------------
 src/rt/rt.h      |  1 -
 src/rt/structs.h |  1 +
 3 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 92fa7cd..c190678 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1097,8 +1097,7 @@ static inline void *nexus_driving(rt_nexus_t *n)
 
 static inline void *nexus_initial(rt_nexus_t *n)
 {
-   assert(n->flags & NET_F_HAS_INITIAL);
-   return n->signal->shared.data + n->offset + 2*n->signal->shared.size;
+   return n->signal->shared.data + n->offset + 3*n->signal->shared.size;
 }
 
 static rt_value_t alloc_value(rt_model_t *m, rt_nexus_t *n)
@@ -1275,7 +1274,6 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
    src->tag          = kind;
    src->disconnected = 0;
    src->fastqueued   = 0;
-   src->sigqueued    = 0;
    src->pseudoqueued = 0;
 
    switch (kind) {
@@ -1301,6 +1299,7 @@ static rt_source_t *add_source(rt_model_t *m, rt_nexus_t *n, source_kind_t kind)
    case SOURCE_FORCING:
    case SOURCE_IMPLICIT:
       src->u.pseudo.nexus = n;
+      src->u.pseudo.when  = TIME_HIGH;
       src->u.pseudo.value = alloc_value(m, n);
       break;
    }
@@ -1572,7 +1571,13 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
    case SOURCE_DEPOSIT:
       split_value(nexus, &(new->u.pseudo.value), &(old->u.pseudo.value),
                   offset);
-      assert(!old->pseudoqueued);   // TODO
+      new->u.pseudo.when = old->u.pseudo.when;
+      new->disconnected = old->disconnected;
+
+      if (old->pseudoqueued) {
+         deltaq_insert_pseudo_source(m, new);
+         new->pseudoqueued = 1;
+      }
       break;
 
    case SOURCE_IMPLICIT:
@@ -1738,7 +1743,7 @@ static void setup_signal(rt_model_t *m, rt_signal_t *s, tree_t where,
    s->nexus.size         = size;
    s->nexus.n_sources    = 0;
    s->nexus.offset       = 0;
-   s->nexus.flags        = flags | NET_F_FAST_DRIVER | NET_F_HAS_INITIAL;
+   s->nexus.flags        = flags | NET_F_FAST_DRIVER;
    s->nexus.signal       = s;
    s->nexus.pending      = NULL;
    s->nexus.active_delta = DELTA_CYCLE_MAX;
@@ -2041,10 +2046,10 @@ static void calculate_driving_value(rt_model_t *m, rt_nexus_t *n)
       // If S is of signal kind register and all the sources of S have
       // values determined by the null transaction, then the driving
       // value of S is unchanged from its previous value.
-      if (n->signal->shared.flags & SIG_F_REGISTER)
-         put_driving(m, n, nexus_effective(n));
-      else if (r == NULL || is_pseudo_source(n->sources.tag))
+      if (r == NULL || is_pseudo_source(n->sources.tag))
          put_driving(m, n, nexus_initial(n));
+      else if (n->signal->shared.flags & SIG_F_REGISTER)
+         put_driving(m, n, nexus_effective(n));
       else
          call_resolution(m, n, r, nonnull, s0);
    }
@@ -2987,7 +2992,6 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
 
       assert(!(n->flags & NET_F_PENDING));
       n->flags |= NET_F_PENDING;
-      n->flags &= ~NET_F_HAS_INITIAL;
       heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
    }
    else
@@ -3118,6 +3122,7 @@ static void async_pseudo_source(rt_model_t *m, void *arg)
    rt_source_t *src = arg;
    assert(src->tag == SOURCE_FORCING || src->tag == SOURCE_DEPOSIT);
 
+   src->u.pseudo.when = m->now;
    update_driving(m, src->u.pseudo.nexus, false);
 
    assert(src->pseudoqueued);
@@ -3727,6 +3732,11 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
             if (nexus->active_delta == m->iteration)
                return true;
          }
+         else if ((s->tag == SOURCE_FORCING || s->tag == SOURCE_DEPOSIT)
+                  && s->u.pseudo.when == m->now) {
+            if (nexus->active_delta == m->iteration)
+               return true;
+         }
       }
    }
 
@@ -3755,6 +3765,9 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
          else if (s->tag == SOURCE_DRIVER
                   && s->u.driver.waveforms.when <= m->now)
             last = MIN(last, m->now - s->u.driver.waveforms.when);
+         else if ((s->tag == SOURCE_FORCING || s->tag == SOURCE_DEPOSIT)
+                  && s->u.pseudo.when <= m->now)
+            last = MIN(last, m->now - s->u.pseudo.when);
       }
    }
 
@@ -3842,17 +3855,17 @@ sig_shared_t *x_init_signal(int64_t count, uint32_t size, jit_scalar_t value,
               " sub-elements which is greater than the maximum supported %d",
               istr(tree_ident(where)), count, INT32_MAX);
 
-   const size_t datasz = MAX(3 * count * size, 8);
+   const size_t datasz = MAX(4 * count * size, 8);
    rt_signal_t *s = static_alloc(m, sizeof(rt_signal_t) + datasz);
    setup_signal(m, s, where, count, size, flags, offset);
 
-   // The driving value area is also used to save the default value
-   void *driving = s->shared.data + 2*s->shared.size;
+   // The default value is needed again after an undriven signal is released
+   void *initial = s->shared.data + 3*s->shared.size;
 
    if (scalar) {
 #define COPY_SCALAR(type) do {                  \
          type *pi = (type *)s->shared.data;     \
-         type *pd = (type *)driving;            \
+         type *pd = (type *)initial;            \
          for (int i = 0; i < count; i++)        \
             pi[i] = pd[i] = value.integer;      \
       } while (0)
@@ -3861,7 +3874,7 @@ sig_shared_t *x_init_signal(int64_t count, uint32_t size, jit_scalar_t value,
    }
    else {
       memcpy(s->shared.data, value.pointer, s->shared.size);
-      memcpy(driving, value.pointer, s->shared.size);
+      memcpy(initial, value.pointer, s->shared.size);
    }
 
    return &(s->shared);
@@ -4233,7 +4246,6 @@ void x_map_const(sig_shared_t *ss, uint32_t offset,
       memcpy(nexus_effective(n), values, valuesz);
       memcpy(nexus_initial(n), values, valuesz);
 
-      n->flags |= NET_F_HAS_INITIAL;
       values += valuesz;
 
       count -= n->width;
diff --git a/src/rt/rt.h b/src/rt/rt.h
index b48d098..c09828a 100644
--- a/src/rt/rt.h
+++ b/src/rt/rt.h
@@ -52,7 +52,6 @@ typedef enum {
 #define NET_F_CACHE_EVENT  (1 << 2)
 #define NET_F_R_IDENT      (1 << 3)
 #define NET_F_PENDING      (1 << 4)
-#define NET_F_HAS_INITIAL  (1 << 5)
 #define NET_F_FAST_DRIVER  (1 << 6)
 #define NET_F_EFFECTIVE    (1 << 7)
 typedef uint8_t net_flags_t;
diff --git a/src/rt/structs.h b/src/rt/structs.h
index d89a5f4..30cee94 100644
--- a/src/rt/structs.h
+++ b/src/rt/structs.h
@@ -153,6 +153,7 @@ typedef struct {
 typedef struct {
    rt_nexus_t *nexus;
    rt_value_t  value;
+   uint64_t    when;
 } rt_pseudo_t;
 
 typedef struct _rt_source {
-- 
2.43.0


From 28865292f4d8bfd825c0630be5043b8401ca0b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 15/80] fix: case statement with a static expression took the
 first range alternative

---
 src/simp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simp.c b/src/simp.c
index 540a285..b5b7963 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -909,6 +909,7 @@ static bool simp_match_case_choice(tree_t alt, int64_t ival)
             else if (ival >= low && ival <= high)
                return true;
          }
+         break;
 
       case A_OTHERS:
          return true;
-- 
2.43.0


From dc6626cfd90dcf2005122abc7c489d1d9ff3c453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 16/80] fix: overflow not detected in constant operands of
 integer arithmetic

---
 src/mir/mir-node.c | 24 +++++++++++++++++++++---
 src/vcode.c        | 31 +++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 9328d96..12d8858 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -980,6 +980,21 @@ static mir_value_t mir_build_arith(mir_unit_t *mu, mir_op_t op, mir_type_t type,
    return result;
 }
 
+static bool mir_can_represent(mir_unit_t *mu, mir_type_t type, int64_t value)
+{
+   switch (mir_get_repr(mu, type)) {
+   case MIR_REPR_U1:  return value >= 0 && value <= 1;
+   case MIR_REPR_U8:  return value >= 0 && value <= UINT8_MAX;
+   case MIR_REPR_U16: return value >= 0 && value <= UINT16_MAX;
+   case MIR_REPR_U32: return value >= 0 && value <= UINT32_MAX;
+   case MIR_REPR_U64: return value >= 0;
+   case MIR_REPR_I8:  return value >= INT8_MIN && value <= INT8_MAX;
+   case MIR_REPR_I16: return value >= INT16_MIN && value <= INT16_MAX;
+   case MIR_REPR_I32: return value >= INT32_MIN && value <= INT32_MAX;
+   default:           return true;
+   }
+}
+
 static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
                                     mir_type_t type, mir_value_t left,
                                     mir_value_t right, mir_value_t locus)
@@ -992,7 +1007,8 @@ static mir_value_t mir_build_add_op(mir_unit_t *mu, mir_op_t op,
       return right;
    else if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_add_overflow(lval, rval, &cval)
+            && (op == MIR_OP_ADD || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
@@ -1038,7 +1054,8 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
       return right;
    else if (rconst && rval == 0)
       return left;
-   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval)
+            && (op == MIR_OP_SUB || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
    else if (mir_equals(left, right))
       return mir_get_class(mu, type) == MIR_TYPE_REAL
@@ -1133,7 +1150,8 @@ static mir_value_t mir_build_mul_op(mir_unit_t *mu, mir_op_t op,
       return left;
    else if (rconst && rval == 0)
       return right;
-   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval))
+   else if (lconst && rconst && !__builtin_mul_overflow(lval, rval, &cval)
+            && (op == MIR_OP_MUL || mir_can_represent(mu, type, cval)))
       return mir_const(mu, type, cval);
 
    double lreal, rreal;
diff --git a/src/vcode.c b/src/vcode.c
index 8bb0a8f..0247739 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -2924,6 +2924,14 @@ static bool vtype_clamp_to_repr(vtype_repr_t repr, int64_t *low, int64_t *high)
    }
 }
 
+static bool vtype_repr_contains(vtype_repr_t repr, int64_t value)
+{
+   if (value < 0)
+      return value >= vtype_repr_low(repr);
+   else
+      return (uint64_t)value <= vtype_repr_high(repr);
+}
+
 int vcode_count_params(void)
 {
    assert(active_unit != NULL);
@@ -3879,7 +3887,11 @@ static vcode_reg_t emit_mul_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   int64_t cval;
+   if (l_is_const && r_is_const
+       && (op == VCODE_OP_MUL
+           || (!__builtin_mul_overflow(lconst, rconst, &cval)
+               && vtype_repr_contains(vtype_repr(vcode_reg_type(lhs)), cval))))
       return emit_const(vcode_reg_type(lhs), lconst * rconst);
    else if (r_is_const && rconst == 1)
       return lhs;
@@ -4046,7 +4058,11 @@ static vcode_reg_t emit_add_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   int64_t cval;
+   if (l_is_const && r_is_const
+       && (op == VCODE_OP_ADD
+           || (!__builtin_add_overflow(lconst, rconst, &cval)
+               && vtype_repr_contains(vtype_repr(vcode_reg_type(lhs)), cval))))
       return emit_const(vcode_reg_type(lhs), lconst + rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
@@ -4102,10 +4118,16 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
    int64_t lconst, rconst;
    const bool l_is_const = vcode_reg_const(lhs, &lconst);
    const bool r_is_const = vcode_reg_const(rhs, &rconst);
-   if (l_is_const && r_is_const)
+   int64_t cval;
+   if (l_is_const && r_is_const
+       && (op == VCODE_OP_SUB
+           || (!__builtin_sub_overflow(lconst, rconst, &cval)
+               && vtype_repr_contains(vtype_repr(vcode_reg_type(lhs)), cval))))
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
+   else if (l_is_const && lconst == 0 && op == VCODE_OP_TRAP_SUB)
+      return emit_trap_neg(rhs, locus);
    else if (l_is_const && lconst == 0)
       return emit_neg(rhs);
 
@@ -4402,7 +4424,8 @@ vcode_reg_t emit_neg(vcode_reg_t lhs)
 vcode_reg_t emit_trap_neg(vcode_reg_t lhs, vcode_reg_t locus)
 {
    int64_t lconst;
-   if (vcode_reg_const(lhs, &lconst) && lconst >= 0)
+   if (vcode_reg_const(lhs, &lconst)
+       && lconst > vtype_repr_low(vtype_repr(vcode_reg_type(lhs))))
       return emit_const(vcode_reg_type(lhs), -lconst);
    else if (vcode_type_data(vcode_reg_data(lhs)->bounds)->low >= 0)
       return emit_neg(lhs);   // Cannot overflow
-- 
2.43.0


From e5816a7c35c478cb3088f587f43cfdb594981df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 17/80] fix: X * X was zero after import into MIR

---
 src/mir/mir-node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 12d8858..fd2b149 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1178,7 +1178,7 @@ mir_value_t mir_build_trap_mul(mir_unit_t *mu, mir_type_t type,
                                mir_value_t left, mir_value_t right,
                                mir_value_t locus)
 {
-   return mir_build_sub_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
+   return mir_build_mul_op(mu, MIR_OP_TRAP_MUL, type, left, right, locus);
 }
 
 mir_value_t mir_build_div(mir_unit_t *mu, mir_type_t type, mir_value_t left,
-- 
2.43.0


From 59ba31d625a7ce1d9d7c6fac2aa3cde14981587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:16 +0000
Subject: [PATCH 18/80] fix: 0 - X was X when built in MIR

---
 src/mir/mir-node.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index fd2b149..2e585f0 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -1050,9 +1050,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst = mir_get_const(mu, left, &lval);
    const bool rconst = mir_get_const(mu, right, &rval);
 
-   if (lconst && lval == 0)
-      return right;
-   else if (rconst && rval == 0)
+   if (rconst && rval == 0)
       return left;
    else if (lconst && rconst && !__builtin_sub_overflow(lval, rval, &cval)
             && (op == MIR_OP_SUB || mir_can_represent(mu, type, cval)))
@@ -1065,9 +1063,7 @@ static mir_value_t mir_build_sub_op(mir_unit_t *mu, mir_op_t op,
    const bool lconst_real = mir_get_const_real(mu, left, &lreal);
    const bool rconst_real = mir_get_const_real(mu, right, &rreal);
 
-   if (lconst_real && (lreal == 0.0 || lreal == -0.0))
-      return right;
-   else if (rconst_real && (rreal == 0.0 || rreal == -0.0))
+   if (rconst_real && (rreal == 0.0 || rreal == -0.0))
       return left;
    else if (lconst_real && rconst_real)
       return mir_const_real(mu, type, lreal - rreal);
-- 
2.43.0


From 691ba93edb41ee6281ff00d066d88012102ca5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 19/80] fix: 0 - X did not detect overflow

---
 src/vcode.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/vcode.c b/src/vcode.c
index 0247739..f17a984 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -4126,9 +4126,7 @@ static vcode_reg_t emit_sub_op(vcode_op_t op, vcode_reg_t lhs, vcode_reg_t rhs,
       return emit_const(vcode_reg_type(lhs), lconst - rconst);
    else if (r_is_const && rconst == 0)
       return lhs;
-   else if (l_is_const && lconst == 0 && op == VCODE_OP_TRAP_SUB)
-      return emit_trap_neg(rhs, locus);
-   else if (l_is_const && lconst == 0)
+   else if (l_is_const && lconst == 0 && op == VCODE_OP_SUB)
       return emit_neg(rhs);
 
    vcode_type_t vbounds = VCODE_INVALID_TYPE;
-- 
2.43.0


From 3ee6f71d8a970d84bd1ab8a0330690d7134b5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 20/80] fix: folding of literal arithmetic ignored overflow of
 the base type

---
 src/simp.c | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/simp.c b/src/simp.c
index b5b7963..c3cd6ee 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -248,6 +248,21 @@ static tree_t simp_concat(tree_t t)
    return agg;
 }
 
+static tree_t simp_int_result(tree_t t, int64_t value)
+{
+   // Leave expressions whose result is not a value of the base type to be
+   // detected at runtime
+   type_t base = type_base_recur(tree_type(t));
+
+   int64_t low, high;
+   if (type_is_integer(base) && !type_is_universal(base)
+       && folded_bounds(range_of(base, 0), &low, &high)
+       && low <= high && (value < low || value > high))
+      return t;
+
+   return get_int_lit(t, NULL, value);
+}
+
 static tree_t simp_literal_expr(tree_t t, subprogram_kind_t kind)
 {
    // Simplify basic operations on literals without the overhead of
@@ -271,9 +286,9 @@ static tree_t simp_literal_expr(tree_t t, subprogram_kind_t kind)
       if (p0 == INT64_MIN)
          return t;
       else
-         return get_int_lit(t, NULL, -p0);
+         return simp_int_result(t, -p0);
    case S_IDENTITY:
-      return get_int_lit(t, NULL, p0);
+      return simp_int_result(t, p0);
    case S_SCALAR_NOT:
       return get_enum_lit(t, NULL, !p0);
    case S_SCALAR_EQ:
@@ -304,32 +319,32 @@ static tree_t simp_literal_expr(tree_t t, subprogram_kind_t kind)
       if (__builtin_add_overflow(p0, p1, &result))
          return t;
       else
-         return get_int_lit(t, NULL, result);
+         return simp_int_result(t, result);
    case S_SUB:
       if (__builtin_sub_overflow(p0, p1, &result))
          return t;
       else
-         return get_int_lit(t, NULL, result);
+         return simp_int_result(t, result);
    case S_MUL:
       if (__builtin_mul_overflow(p0, p1, &result))
          return t;
       else
-         return get_int_lit(t, NULL, result);
+         return simp_int_result(t, result);
    case S_DIV:
       if ((p0 == INT64_MIN && p1 == -1) || p1 == 0)
          return t;
       else
-         return get_int_lit(t, NULL, p0 / p1);
+         return simp_int_result(t, p0 / p1);
    case S_EXP:
       if (p1 >= 0 && ipow_safe(p0, p1, &result))
-         return get_int_lit(t, NULL, result);
+         return simp_int_result(t, result);
       else
          return t;
    case S_ABS:
       if (p0 == INT64_MIN)
          return t;
       else
-         return get_int_lit(t, NULL, llabs(p0));
+         return simp_int_result(t, llabs(p0));
    default:
       return t;
    }
-- 
2.43.0


From 5e6e2903b2ec48930a38a5fce08efb2477ed2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:07 +0000
Subject: [PATCH 21/80] fix: wrong bounds assumed for the result of division by
 a negative constant

---
 src/vcode.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index f17a984..697c7d1 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -3975,7 +3975,10 @@ vcode_reg_t emit_div(vcode_reg_t lhs, vcode_reg_t rhs)
 
    if (bl->kind == VCODE_TYPE_INT && r_is_const && rconst != 0) {
       reg_t *rr = vcode_reg_data(reg);
-      rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      if (rconst > 0)
+         rr->bounds = vtype_int(bl->low / rconst, bl->high / rconst);
+      else if (bl->low > INT64_MIN)
+         rr->bounds = vtype_int(bl->high / rconst, bl->low / rconst);
    }
    else if (bl->kind == VCODE_TYPE_REAL) {
       reg_t *rr = vcode_reg_data(reg);
-- 
2.43.0


From a9b187b0e107d15048d0326c3b432340ee95c784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:57 +0000
Subject: [PATCH 22/80] fix: array types of different element subtypes shared
 bounds in vcode

---
 src/vcode.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/vcode.c b/src/vcode.c
index 697c7d1..fb1719a 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -2430,6 +2430,34 @@ void vcode_dump(void)
    vcode_dump_with_mark(-1, NULL, NULL);
 }
 
+static bool vtype_same(vcode_type_t a, vcode_type_t b)
+{
+   // Equal types that also have the same bounds
+   if (a == b)
+      return true;
+   else if (!vtype_eq(a, b))
+      return false;
+
+   const vtype_t *at = vcode_type_data(a);
+   const vtype_t *bt = vcode_type_data(b);
+
+   switch (at->kind) {
+   case VCODE_TYPE_CARRAY:
+   case VCODE_TYPE_UARRAY:
+      return vtype_eq(at->bounds, bt->bounds);
+   case VCODE_TYPE_POINTER:
+   case VCODE_TYPE_ACCESS:
+      return vtype_same(at->pointed, bt->pointed);
+   case VCODE_TYPE_RESOLUTION:
+   case VCODE_TYPE_CLOSURE:
+   case VCODE_TYPE_SIGNAL:
+   case VCODE_TYPE_FILE:
+      return vtype_same(at->base, bt->base);
+   default:
+      return true;
+   }
+}
+
 static vcode_type_t vtype_new(vtype_t *new)
 {
    int index = active_unit->types.count - 1;
@@ -2437,7 +2465,7 @@ static vcode_type_t vtype_new(vtype_t *new)
 
    for (int i = 0; i < index; i++) {
       vcode_type_t this = MAKE_HANDLE(active_unit->depth, i);
-      if (vtype_eq(this, type)) {
+      if (vtype_same(this, type)) {
          active_unit->types.count--;
          return this;
       }
-- 
2.43.0


From dd6a02b44f0868eca017579e1e5ca188312473b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 23/80] fix: crash returning a repeated constant array from a
 function

---
 src/mir/mir-node.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mir/mir-node.c b/src/mir/mir-node.c
index 2e585f0..c5a1ecf 100644
--- a/src/mir/mir-node.c
+++ b/src/mir/mir-node.c
@@ -906,7 +906,8 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 
    mir_type_t t_char = mir_char_type(mu);
    mir_type_t type = mir_carray_type(mu, count, t_char);
-   mir_stamp_t stamp = mir_int_stamp(mu, low, high);
+   mir_stamp_t elem = mir_int_stamp(mu, low, high);
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
 
    node_data_t *n = mir_add_node(mu, MIR_OP_CONST_ARRAY, type,
                                  stamp, count);
@@ -920,7 +921,8 @@ mir_value_t mir_const_string(mir_unit_t *mu, const char *str)
 mir_value_t mir_build_const_rep(mir_unit_t *mu, mir_type_t type,
                                 mir_value_t value, unsigned rep)
 {
-   mir_stamp_t stamp = mir_get_stamp(mu, value);
+   mir_stamp_t elem = mir_get_stamp(mu, value);
+   mir_stamp_t stamp = mir_pointer_stamp(mu, MIR_MEM_CONST, elem);
    mir_value_t result = mir_build_2(mu, MIR_OP_CONST_REP, type, stamp,
                                     value, mir_enum(rep));
 
-- 
2.43.0


From b0a790400d253033d7a1e14fd05f9450f067cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 24/80] fix: function result not checked against the result
 subtype

---
 src/lower.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index 76cabb8..eea54b3 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6380,7 +6380,7 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
       vcode_reg_t value_reg = lower_rvalue(lu, value);
 
       if (type_is_scalar(type)) {
-         lower_check_scalar_bounds(lu, value_reg, type, value, NULL);
+         lower_check_scalar_bounds(lu, value_reg, tree_type(stmt), value, NULL);
          emit_return(value_reg);
       }
       else if (type_is_access(type)) {
-- 
2.43.0


From d4c0e81e7fe4c5d235ac32da3d0f8af7ab4fbb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 25/80] fix: scalar qualified expression not checked against
 the subtype

---
 src/lower.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index eea54b3..febc8eb 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5055,8 +5055,12 @@ static vcode_reg_t lower_qualified(lower_unit_t *lu, tree_t expr)
 
    if (type_is_array(to_type))
       return lower_coerce_arrays(lu, from_type, to_type, value_reg);
-   else
+   else {
+      if (type_is_scalar(to_type) && !lower_have_signal(value_reg))
+         lower_check_scalar_bounds(lu, value_reg, to_type, value, NULL);
+
       return value_reg;
+   }
 }
 
 static vcode_reg_t lower_cond_value(lower_unit_t *lu, tree_t expr)
-- 
2.43.0


From 517d8a05382a7e852e7409da11bccf9ba950f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 26/80] fix: elements of array aggregates not checked against
 the element subtype

---
 src/lower.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index febc8eb..0bd8aad 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -3947,6 +3947,8 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       // Initialise the array with the default value
       if (type_is_scalar(elem_type) && !multidim) {
          vcode_reg_t def_reg = lower_rvalue(lu, def_value);
+         if (tree_kind(def_value) != T_LITERAL)   // Checked during analysis
+            lower_check_scalar_bounds(lu, def_reg, elem_type, def_value, NULL);
          emit_memset(mem_reg, def_reg, len_reg);
       }
       else {
@@ -4207,8 +4209,13 @@ static vcode_reg_t lower_array_aggregate(lower_unit_t *lu, tree_t expr,
       }
       else if (type_is_record(elem_type))
          emit_copy(ptr_reg, value_regs[i], VCODE_INVALID_REG);
-      else
+      else {
+         if (type_is_scalar(elem_type))
+            lower_check_scalar_bounds(lu, value_regs[i], elem_type,
+                                      value, NULL);
+
          emit_store_indirect(value_regs[i], ptr_reg);
+      }
 
       if (loop_bb != VCODE_INVALID_BLOCK) {
          assert(tree_subkind(a) == A_RANGE);
-- 
2.43.0


From 0b7f7979cb8e911e3aecea2033eb9b6746b0df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 27/80] fix: calls and overflow checks dropped with dead stores

A store to a variable followed in the same block by another store is
removed, after which vcode_opt pruned the now unused evaluation of the
first value, including calls to functions with side effects and
operations that must report overflow.
---
 src/vcode.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/vcode.c b/src/vcode.c
index fb1719a..eafb4ff 100644
--- a/src/vcode.c
+++ b/src/vcode.c
@@ -638,6 +638,10 @@ void vcode_opt(void)
 
    int *uses LOCAL = xmalloc_array(active_unit->regs.count, sizeof(int));
 
+   const bool sequential = active_unit->kind == VCODE_UNIT_PROCESS
+      || active_unit->kind == VCODE_UNIT_FUNCTION
+      || active_unit->kind == VCODE_UNIT_PROCEDURE;
+
    int pruned = 0;
    do {
       memset(uses, '\0', active_unit->regs.count * sizeof(int));
@@ -653,6 +657,17 @@ void vcode_opt(void)
             case VCODE_OP_FCALL:
                if (o->result == VCODE_INVALID_REG)
                   break;
+               // Fall-through
+            case VCODE_OP_TRAP_ADD:
+            case VCODE_OP_TRAP_SUB:
+            case VCODE_OP_TRAP_MUL:
+            case VCODE_OP_TRAP_EXP:
+               // The value of a sequential assignment may be unused after
+               // a dead store was removed but evaluating it may have side
+               // effects or raise an error
+               if (sequential)
+                  break;
+               // Fall-through
             case VCODE_OP_CONST:
             case VCODE_OP_CONST_REAL:
             case VCODE_OP_CONST_ARRAY:
@@ -683,10 +698,6 @@ void vcode_opt(void)
             case VCODE_OP_SELECT:
             case VCODE_OP_CAST:
             case VCODE_OP_RESOLVED:
-            case VCODE_OP_TRAP_ADD:
-            case VCODE_OP_TRAP_SUB:
-            case VCODE_OP_TRAP_MUL:
-            case VCODE_OP_TRAP_EXP:
             case VCODE_OP_ALLOC:
             case VCODE_OP_FUNCTION_TRIGGER:
             case VCODE_OP_CMP_TRIGGER:
-- 
2.43.0


From c789fd87a3f563a6afd91b3d3990a99f57a9d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 28/80] fix: result of 'SUCC and 'PRED not checked as parameter
 of an attribute

---
 src/lower.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lower.c b/src/lower.c
index 0bd8aad..ab286eb 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -4763,6 +4763,13 @@ static vcode_reg_t lower_attr_param(lower_unit_t *lu, tree_t value,
       return lower_coerce_arrays(lu, value_type, port_type ?: value_type, reg);
    else if (class == C_SIGNAL || class == C_FILE)
       return reg;
+   else if (type_is_discrete(value_type)) {
+      // The parameter may be outside its type if it is itself the result
+      // of an attribute such as 'SUCC
+      lower_check_scalar_bounds(lu, reg, type_base_recur(value_type),
+                                value, NULL);
+      return reg;
+   }
    else
       return reg;
 }
-- 
2.43.0


From 8e0621c329767400ff793921bd09ab64f5840c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 29/80] fix: 'LEFTOF and 'RIGHTOF of descending enumeration
 subtypes

---
 src/lower.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index ab286eb..21d21ae 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5014,8 +5014,7 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
 
          type_t type = tree_type(expr);
-         const int dir =
-            (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? -1 : 1;
+         const int dir = direction_of(type, 0) == RANGE_TO ? -1 : 1;
          return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
       }
 
@@ -5025,8 +5024,7 @@ static vcode_reg_t lower_attr_ref(lower_unit_t *lu, tree_t expr)
          vcode_reg_t arg_reg = lower_attr_param(lu, value, NULL, C_CONSTANT);
 
          type_t type = tree_type(expr);
-         const int dir =
-            (type_is_enum(type) || direction_of(type, 0) == RANGE_TO) ? 1 : -1;
+         const int dir = direction_of(type, 0) == RANGE_TO ? 1 : -1;
          return emit_add(arg_reg, emit_const(vcode_reg_type(arg_reg), dir));
       }
 
-- 
2.43.0


From 00a8ecc3780cffce09f157e6312d497df7d527ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 30/80] fix: (others => negative constant) filled a short array
 with wrong values

---
 src/jit/jit-optim.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jit/jit-optim.c b/src/jit/jit-optim.c
index 56de995..3479641 100644
--- a/src/jit/jit-optim.c
+++ b/src/jit/jit-optim.c
@@ -878,8 +878,8 @@ static void jit_lvn_memset(jit_ir_t *ir, lvn_state_t *state)
          0xff, 0xffff, 0xffffffff, 0xffffffffffffffff
       };
 
-      uint64_t bits = value;
-      if (value == 0) {
+      uint64_t bits = value & mask[ir->size];
+      if (bits == 0) {
          ir->op = MACRO_BZERO;
          ir->size = JIT_SZ_UNSPEC;
          ir->arg2.kind = JIT_VALUE_INVALID;
-- 
2.43.0


From 8adaaa217e0b8f1b814fdad30c215ef8c866cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 31/80] fix: length of array returned by a function not checked

---
 src/lower.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 21d21ae..eaf413f 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -6403,8 +6403,17 @@ static void lower_return(lower_unit_t *lu, tree_t stmt)
          type_t access = type_designated(type);
          emit_return(lower_incomplete_access(value_reg, access));
       }
-      else if (type_is_array(type))
-         emit_return(lower_coerce_arrays(lu, type, tree_type(stmt), value_reg));
+      else if (type_is_array(type)) {
+         type_t rtype = tree_type(stmt);
+
+         if (!type_is_unconstrained(rtype)) {
+            vcode_reg_t locus = lower_debug_locus(stmt);
+            lower_check_array_sizes(lu, rtype, type, VCODE_INVALID_REG,
+                                    value_reg, locus);
+         }
+
+         emit_return(lower_coerce_arrays(lu, type, rtype, value_reg));
+      }
       else
          emit_return(value_reg);
    }
-- 
2.43.0


From d4941a820d28d494e9246249b00ba127aa0a7217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 32/80] fix: T'POS assumed to be in the subtype required by the
 context

---
 src/names.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/names.c b/src/names.c
index ed62fff..5b14497 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4392,6 +4392,7 @@ static type_t try_solve_attr_ref(nametab_t *tab, tree_t aref)
       type_set_restrict(tab, type_is_integer);
       if (!type_set_uniq(tab, &type))
          return NULL;
+      type = type_base_recur(type);
       break;
 
    case ATTR_BASE:
-- 
2.43.0


From 5280e9b6ee0e2284071f8f320415fce82e245c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 33/80] fix: operand of short-circuit operator that may raise
 an error evaluated regardless

---
 src/lower.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index eaf413f..dfbf8e8 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -1905,7 +1905,8 @@ static void lower_logic_expr_coverage(lower_unit_t *lu, tree_t fcall,
 
 static bool lower_side_effect_free(tree_t expr)
 {
-   // True if expression is side-effect free with no function calls
+   // True if expression is side-effect free with no function calls and
+   // evaluating it cannot raise an error
    switch (tree_kind(expr)) {
    case T_REF:
    case T_LITERAL:
@@ -1915,8 +1916,11 @@ static bool lower_side_effect_free(tree_t expr)
       {
          const subprogram_kind_t kind = tree_subkind(tree_ref(expr));
          if (kind == S_DIV || kind == S_DIV_PR || kind == S_DIV_RI
-             || kind == S_REM || kind == S_MOD)
+             || kind == S_REM || kind == S_MOD || kind == S_EXP)
             return false;
+         else if ((kind == S_ADD || kind == S_SUB || kind == S_MUL
+                   || kind == S_NEGATE) && type_is_integer(tree_type(expr)))
+            return false;   // May overflow
          else if (kind == S_USER || !is_open_coded_builtin(kind))
             return false;
 
@@ -1930,9 +1934,17 @@ static bool lower_side_effect_free(tree_t expr)
       }
       break;
    case T_RECORD_REF:
+      return lower_side_effect_free(tree_value(expr));
    case T_QUALIFIED:
    case T_TYPE_CONV:
-      return lower_side_effect_free(tree_value(expr));
+      // May fail a range check
+      switch (tree_kind(tree_value(expr))) {
+      case T_LITERAL:
+      case T_STRING:
+         return true;
+      default:
+         return false;
+      }
    case T_ATTR_REF:
       {
          const attr_kind_t kind = tree_subkind(expr);
-- 
2.43.0


From 913cde28eb81f54d2b7b5540b20715364a6e62df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 34/80] fix: LLVM verification failure for a copy of unknown
 size in unreachable code

---
 src/jit/jit-llvm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 256c5a5..44d4564 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -1994,7 +1994,7 @@ static void cgen_macro_copy(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef src   = cgen_coerce_value(obj, cgb, ir->arg2, LLVM_PTR);
 
 #ifdef LLVM_HAS_OPAQUE_POINTERS
-   if (LLVMIsConstant(count) && LLVMConstIntGetZExtValue(count) <= 64) {
+   if (LLVMIsAConstantInt(count) && LLVMConstIntGetZExtValue(count) <= 64) {
       LLVMValueRef args[] = {
          dest,
          src,
@@ -2023,7 +2023,7 @@ static void cgen_macro_bzero(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
    LLVMValueRef dest  = cgen_coerce_value(obj, cgb, ir->arg1, LLVM_PTR);
 
 #ifdef LLVM_HAS_OPAQUE_POINTERS
-   if (LLVMIsConstant(count) && LLVMConstIntGetZExtValue(count) <= 64) {
+   if (LLVMIsAConstantInt(count) && LLVMConstIntGetZExtValue(count) <= 64) {
       LLVMValueRef args[] = {
          dest,
          llvm_int8(obj, 0),
@@ -2046,7 +2046,7 @@ static void cgen_macro_memset(llvm_obj_t *obj, cgen_block_t *cgb, jit_ir_t *ir)
 
    if (ir->size == JIT_SZ_8) {
 #ifdef LLVM_HAS_OPAQUE_POINTERSS
-      if (LLVMIsConstant(count) && LLVMConstIntGetZExtValue(count) <= 64) {
+      if (LLVMIsAConstantInt(count) && LLVMConstIntGetZExtValue(count) <= 64) {
          LLVMValueRef args[] = {
             dest,
             value,
-- 
2.43.0


From 3488ea0a377f0d1ea3a67c748e95e7bc10ee9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 35/80] fix: overflow of ** missed in compiled code; failure to
 compile ** of 8- and 16-bit types together

---
 src/jit/jit-llvm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jit/jit-llvm.c b/src/jit/jit-llvm.c
index 44d4564..744e87e 100644
--- a/src/jit/jit-llvm.c
+++ b/src/jit/jit-llvm.c
@@ -681,7 +681,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.sexp.with.overflow.i16",
+            "nvc.sexp.with.overflow.i8",
             "nvc.sexp.with.overflow.i16",
             "nvc.sexp.with.overflow.i32",
             "nvc.sexp.with.overflow.i64"
@@ -704,7 +704,7 @@ static LLVMValueRef llvm_get_fn(llvm_obj_t *obj, llvm_fn_t which)
                                                 ARRAY_LEN(args), false);
 
          static const char *names[] = {
-            "nvc.uexp.with.overflow.i16",
+            "nvc.uexp.with.overflow.i8",
             "nvc.uexp.with.overflow.i16",
             "nvc.uexp.with.overflow.i32",
             "nvc.uexp.with.overflow.i64"
@@ -3257,7 +3257,8 @@ static void cgen_exp_overflow_body(llvm_obj_t *obj, llvm_fn_t which,
    LLVMValueRef x2_pair = LLVMBuildCall2(obj->builder, multype, mulfn, x2_args,
                                          ARRAY_LEN(x2_args), "");
    LLVMValueRef x2 = LLVMBuildExtractValue(obj->builder, x2_pair, 0, "x2");
-   LLVMValueRef xo2 = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef x2_ovf = LLVMBuildExtractValue(obj->builder, x2_pair, 1, "");
+   LLVMValueRef xo2 = LLVMBuildOr(obj->builder, xo1, x2_ovf, "xo2");
 
    LLVMValueRef x1_in[] = { x0, x2 };
    LLVMBasicBlockRef x1_bb[] = { entry, tail };
-- 
2.43.0


From 73caeab5363132b1c37ac361f6e3122915854cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 36/80] fix: length check omitted when assigning a slice to
 another slice with the same start

---
 src/lower.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index dfbf8e8..c0b202d 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -5805,8 +5805,12 @@ static void lower_copy_array(lower_unit_t *lu, type_t dst_type, type_t src_type,
                              vcode_reg_t dst_array, vcode_reg_t src_array,
                              vcode_reg_t locus)
 {
-   if (dst_array == src_array)
-      return;
+   if (dst_array == src_array) {
+      // May be slices of the same array with different lengths
+      if (vcode_reg_kind(dst_array) == VCODE_TYPE_POINTER)
+         lower_check_array_sizes(lu, dst_type, src_type, dst_array,
+                                 src_array, locus);
+   }
    else if (lower_trivially_copyable(dst_type)) {
       lower_check_array_sizes(lu, dst_type, src_type, dst_array,
                               src_array, locus);
-- 
2.43.0


From c836aecea50e5bc5c2961fac972d3d20b57bb411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:26 +0000
Subject: [PATCH 37/80] fix: composite resolution with signals split into
 several nexuses

---
 src/rt/model.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index c190678..8d61d0f 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1763,14 +1763,15 @@ static void copy_sub_signal_sources(rt_scope_t *scope, void *buf, int stride)
    for (int i = 0; i < scope->signals.count; i++) {
       rt_signal_t *s = scope->signals.items[i];
       rt_nexus_t *n = &(s->nexus);
-      for (unsigned i = 0; i < s->n_nexus; i++) {
+      for (unsigned i = 0; i < s->n_nexus; i++, n = n->chain) {
          unsigned o = 0;
          for (rt_source_t *src = &(n->sources); src; src = src->chain_input) {
             const void *data = source_value(n, src);
             if (data == NULL)
                continue;
 
-            memcpy(buf + s->offset + (o++ * stride), data, n->size * n->width);
+            memcpy(buf + s->offset + n->offset + (o++ * stride), data,
+                   n->size * n->width);
          }
       }
    }
-- 
2.43.0


From 37beea187e6b33551800ff8123f109d220dcda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 38/80] fix: resolution functions of composites nested in other
 composites

---
 src/rt/model.c | 50 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 8d61d0f..aeb852d 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1912,20 +1912,20 @@ static void call_resolution(rt_model_t *m, rt_nexus_t *n, res_memo_t *r,
    else if (r->flags & R_COMPOSITE) {
       // Call resolution function of composite type
 
-      rt_scope_t *scope = n->signal->parent, *rscope = scope;
-      while (is_signal_scope(scope->parent)) {
-         scope = scope->parent;
-         if (scope->flags & SCOPE_F_RESOLVED)
-            rscope = scope;
+      // Find the outermost composite with a resolution function
+      rt_scope_t *rscope = n->signal->parent;
+      for (rt_scope_t *it = rscope; is_signal_scope(it); it = it->parent) {
+         if (it->flags & SCOPE_F_RESOLVED)
+            rscope = it;
       }
 
-      TRACE("resolved composite signal needs %d bytes", scope->size);
+      TRACE("resolved composite signal needs %d bytes", rscope->size);
 
       model_thread_t *thread = model_thread(m);
       assert(thread->tlab != NULL);
 
-      uint8_t *inputs = tlab_alloc(thread->tlab, nonnull * scope->size);
-      copy_sub_signal_sources(scope, inputs, scope->size);
+      uint8_t *inputs = tlab_alloc(thread->tlab, nonnull * rscope->size);
+      copy_sub_signal_sources(rscope, inputs - rscope->offset, rscope->size);
 
       jit_scalar_t result;
       if (jit_try_call(m->jit, r->closure.handle, &result,
@@ -4288,6 +4288,35 @@ void x_map_implicit(sig_shared_t *src_ss, uint32_t src_offset,
    }
 }
 
+static type_t get_scope_type(rt_scope_t *s)
+{
+   if (s->parent != NULL && s->parent->kind == SCOPE_ARRAY)
+      return type_elem_recur(get_scope_type(s->parent));
+   else
+      return tree_type(s->where);
+}
+
+static bool is_resolved_scope(rt_scope_t *s)
+{
+   for (type_t t = get_scope_type(s); type_kind(t) == T_SUBTYPE;
+        t = type_base(t)) {
+      if (type_has_resolution(t))
+         return tree_kind(type_resolution(t)) != T_ELEM_RESOLUTION;
+   }
+
+   if (s->parent == NULL || s->parent->kind != SCOPE_ARRAY)
+      return false;
+
+   // The array subtype may have a resolution function for its elements
+   for (type_t t = get_scope_type(s->parent); type_kind(t) == T_SUBTYPE;
+        t = type_base(t)) {
+      if (type_has_resolution(t))
+         return tree_kind(type_resolution(t)) == T_ELEM_RESOLUTION;
+   }
+
+   return false;
+}
+
 void x_push_scope(tree_t where, int32_t size, rt_scope_kind_t kind)
 {
    TRACE("push scope %s size=%d kind=%d", istr(tree_ident(where)), size, kind);
@@ -4313,9 +4342,8 @@ void x_push_scope(tree_t where, int32_t size, rt_scope_kind_t kind)
    s->privdata = MPTR_INVALID;
 
    if (kind != SCOPE_PACKAGE) {
-      type_t type = tree_type(where);
-      assert(type_is_composite(type));
-      if (type_kind(type) == T_SUBTYPE && type_has_resolution(type))
+      assert(type_is_composite(tree_type(where)));
+      if (is_resolved_scope(s))
          s->flags |= SCOPE_F_RESOLVED;
    }
 
-- 
2.43.0


From cce3e6b85f50b410df2cdeb4b46e70d7cdd1854d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:35 +0000
Subject: [PATCH 39/80] fix: update every element of a composite signal with a
 resolution function

---
 src/rt/model.c | 75 ++++++++++++++++++++++++++++++++++++++++++++------
 src/rt/rt.h    |  1 +
 2 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index aeb852d..97dcff3 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1865,6 +1865,18 @@ static void *source_value(rt_nexus_t *nexus, rt_source_t *src)
    return NULL;
 }
 
+static rt_scope_t *get_resolved_scope(rt_nexus_t *n)
+{
+   // Find the outermost composite with a resolution function
+   rt_scope_t *rscope = n->signal->parent;
+   for (rt_scope_t *it = rscope; is_signal_scope(it); it = it->parent) {
+      if (it->flags & SCOPE_F_RESOLVED)
+         rscope = it;
+   }
+
+   return rscope;
+}
+
 static void call_resolution(rt_model_t *m, rt_nexus_t *n, res_memo_t *r,
                             int nonnull, rt_source_t *s0)
 {
@@ -1912,12 +1924,7 @@ static void call_resolution(rt_model_t *m, rt_nexus_t *n, res_memo_t *r,
    else if (r->flags & R_COMPOSITE) {
       // Call resolution function of composite type
 
-      // Find the outermost composite with a resolution function
-      rt_scope_t *rscope = n->signal->parent;
-      for (rt_scope_t *it = rscope; is_signal_scope(it); it = it->parent) {
-         if (it->flags & SCOPE_F_RESOLVED)
-            rscope = it;
-      }
+      rt_scope_t *rscope = get_resolved_scope(n);
 
       TRACE("resolved composite signal needs %d bytes", rscope->size);
 
@@ -2999,19 +3006,61 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
       put_effective(m, n, value);
 }
 
+static int composite_rank(rt_scope_t *scope)
+{
+   int rank = 0;
+   for (int i = 0; i < scope->signals.count; i++) {
+      rt_signal_t *s = scope->signals.items[i];
+      rt_nexus_t *n = &(s->nexus);
+      for (int j = 0; j < s->n_nexus; j++, n = n->chain)
+         rank = MAX(rank, n->rank);
+   }
+
+   for (int i = 0; i < scope->children.count; i++)
+      rank = MAX(rank, composite_rank(scope->children.items[i]));
+
+   return rank;
+}
+
+static void defer_composite_update(rt_model_t *m, rt_scope_t *scope, int rank)
+{
+   for (int i = 0; i < scope->signals.count; i++) {
+      rt_signal_t *s = scope->signals.items[i];
+      rt_nexus_t *n = &(s->nexus);
+      for (int j = 0; j < s->n_nexus; j++, n = n->chain) {
+         if (n->n_sources > 0 && !(n->flags & NET_F_PENDING)) {
+            heap_insert(m->driving_heap, rank, n);
+            n->flags |= NET_F_PENDING;
+         }
+      }
+   }
+
+   for (int i = 0; i < scope->children.count; i++)
+      defer_composite_update(m, scope->children.items[i], rank);
+}
+
 static void defer_driving_update(rt_model_t *m, rt_nexus_t *n)
 {
    if (n->flags & NET_F_PENDING)
       return;
 
    TRACE("defer %s driving value update", trace_nexus(n));
-   heap_insert(m->driving_heap, n->rank, n);
-   n->flags |= NET_F_PENDING;
+
+   if (n->flags & NET_F_COMPOSITE) {
+      // The resolution function of a composite signal may calculate any
+      // element from any other so must update all the elements
+      rt_scope_t *scope = get_resolved_scope(n);
+      defer_composite_update(m, scope, composite_rank(scope));
+   }
+   else {
+      heap_insert(m->driving_heap, n->rank, n);
+      n->flags |= NET_F_PENDING;
+   }
 }
 
 static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
 {
-   if (n->n_sources == 1 || safe) {
+   if ((n->n_sources == 1 && !(n->flags & NET_F_COMPOSITE)) || safe) {
       n->active_delta = m->iteration;
       n->flags &= ~NET_F_PENDING;
 
@@ -4616,6 +4665,14 @@ void x_resolve_signal(sig_shared_t *ss, jit_handle_t handle, void *context,
       for (int i = 0; i < s->n_nexus; i++, n = n->chain)
          n->flags |= NET_F_R_IDENT;
    }
+
+   if (s->resolution->flags & R_COMPOSITE) {
+      s->shared.flags |= NET_F_COMPOSITE;
+
+      rt_nexus_t *n = &(s->nexus);
+      for (int i = 0; i < s->n_nexus; i++, n = n->chain)
+         n->flags |= NET_F_COMPOSITE;
+   }
 }
 
 void x_process_init(jit_handle_t handle, tree_t where)
diff --git a/src/rt/rt.h b/src/rt/rt.h
index c09828a..8fd885c 100644
--- a/src/rt/rt.h
+++ b/src/rt/rt.h
@@ -52,6 +52,7 @@ typedef enum {
 #define NET_F_CACHE_EVENT  (1 << 2)
 #define NET_F_R_IDENT      (1 << 3)
 #define NET_F_PENDING      (1 << 4)
+#define NET_F_COMPOSITE    (1 << 5)
 #define NET_F_FAST_DRIVER  (1 << 6)
 #define NET_F_EFFECTIVE    (1 << 7)
 typedef uint8_t net_flags_t;
-- 
2.43.0


From 917481c1bf06ddf08151aedcfc016aef338b11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 40/80] fix: do not apply the resolution function to ports of
 mode in

---
 src/rt/model.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 97dcff3..fb921e5 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4648,6 +4648,15 @@ void x_resolve_signal(sig_shared_t *ss, jit_handle_t handle, void *context,
 
    TRACE("resolve signal %s", istr(tree_ident(s->where)));
 
+   // The value of a port of mode in is that of its actual: it has no
+   // sources of its own to resolve
+   tree_t where = s->where;
+   for (rt_scope_t *it = s->parent; is_signal_scope(it); it = it->parent)
+      where = it->where;
+
+   if (tree_kind(where) == T_PORT_DECL && tree_subkind(where) == PORT_IN)
+      return;
+
    ffi_closure_t closure = {
       .handle = handle,
       .context = context
-- 
2.43.0


From 92be12429217fa0160ca4c85bfaae8d26ae41a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:29 +0000
Subject: [PATCH 41/80] fix: a port is active whenever the signal it is
 connected to is active

---
 src/rt/model.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index fb921e5..89bb44a 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3066,26 +3066,21 @@ static void update_driving(rt_model_t *m, rt_nexus_t *n, bool safe)
 
       calculate_driving_value(m, n);
 
-      // Update outputs if the effective value must be calculated
-      // separately or there was an event on this signal
-      const bool update_outputs = !!(n->flags & NET_F_EFFECTIVE)
-         || (n->event_delta == m->iteration && n->last_event == m->now);
-
-      if (update_outputs) {
-         for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
-            switch (o->tag) {
-            case SOURCE_PORT:
-               if (o->u.port.conv_func != NULL)
-                  defer_driving_update(m, o->u.port.output);
-               else
-                  update_driving(m, o->u.port.output, false);
-               break;
-            case SOURCE_IMPLICIT:
-               update_driving(m, o->u.pseudo.nexus , false);
-               break;
-            default:
-               should_not_reach_here();
-            }
+      // Outputs must be updated even if there was no event as this signal
+      // being active makes them active too
+      for (rt_source_t *o = n->outputs; o; o = o->chain_output) {
+         switch (o->tag) {
+         case SOURCE_PORT:
+            if (o->u.port.conv_func != NULL)
+               defer_driving_update(m, o->u.port.output);
+            else
+               update_driving(m, o->u.port.output, false);
+            break;
+         case SOURCE_IMPLICIT:
+            update_driving(m, o->u.pseudo.nexus , false);
+            break;
+         default:
+            should_not_reach_here();
          }
       }
    }
-- 
2.43.0


From 6ed8d610e205026e2a86a60978d41875ecf10616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 42/80] fix: an inout port is active when the connected signal
 is active

---
 src/rt/model.c | 46 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 89bb44a..1f5c9da 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3754,7 +3754,7 @@ int model_exit_status(rt_model_t *m)
       return get_vhdl_assert_exit_status();
 }
 
-static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
+static bool nexus_sources_active(rt_model_t *m, rt_nexus_t *nexus)
 {
    if (nexus->n_sources > 0) {
       for (rt_source_t *s = &(nexus->sources); s; s = s->chain_input) {
@@ -3762,12 +3762,12 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
             rt_conv_func_t *cf = s->u.port.conv_func;
             if (cf == NULL) {
                RT_LOCK(s->u.port.input->signal->lock);
-               if (nexus_active(m, s->u.port.input))
+               if (nexus_sources_active(m, s->u.port.input))
                   return true;
             }
             else {
                for (int i = 0; i < cf->ninputs; i++) {
-                  if (nexus_active(m, cf->inputs[i].nexus))
+                  if (nexus_sources_active(m, cf->inputs[i].nexus))
                      return true;
                }
             }
@@ -3788,7 +3788,23 @@ static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
    return false;
 }
 
-static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
+static bool nexus_active(rt_model_t *m, rt_nexus_t *nexus)
+{
+   if (nexus_sources_active(m, nexus))
+      return true;
+
+   if (nexus->flags & NET_F_INOUT) {
+      // An inout port is also active when the connected signal is active
+      for (rt_source_t *s = nexus->outputs; s; s = s->chain_output) {
+         if (s->tag == SOURCE_PORT && nexus_active(m, s->u.port.output))
+            return true;
+      }
+   }
+
+   return false;
+}
+
+static uint64_t nexus_sources_last_active(rt_model_t *m, rt_nexus_t *nexus)
 {
    int64_t last = TIME_HIGH;
 
@@ -3798,12 +3814,14 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
             rt_conv_func_t *cf = s->u.port.conv_func;
             if (cf == NULL) {
                RT_LOCK(s->u.port.input->signal->lock);
-               last = MIN(last, nexus_last_active(m, s->u.port.input));
+               last = MIN(last,
+                          nexus_sources_last_active(m, s->u.port.input));
             }
             else {
                for (int i = 0; i < cf->ninputs; i++) {
-                  RT_LOCK(cf->inputs[i]->signal->lock);
-                  last = MIN(last, nexus_last_active(m, cf->inputs[i].nexus));
+                  rt_nexus_t *input = cf->inputs[i].nexus;
+                  RT_LOCK(input->signal->lock);
+                  last = MIN(last, nexus_sources_last_active(m, input));
                }
             }
          }
@@ -3819,6 +3837,20 @@ static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
    return last;
 }
 
+static uint64_t nexus_last_active(rt_model_t *m, rt_nexus_t *nexus)
+{
+   int64_t last = nexus_sources_last_active(m, nexus);
+
+   if (nexus->flags & NET_F_INOUT) {
+      for (rt_source_t *s = nexus->outputs; s; s = s->chain_output) {
+         if (s->tag == SOURCE_PORT)
+            last = MIN(last, nexus_last_active(m, s->u.port.output));
+      }
+   }
+
+   return last;
+}
+
 void get_forcing_value(rt_signal_t *s, uint8_t *value)
 {
    uint8_t *p = value;
-- 
2.43.0


From b01b3bfc895bd421252e3251a8bfeb1ddd3c7348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:13 +0000
Subject: [PATCH 43/80] fix: cloning a nexus with conversions lost outputs and
 values

---
 src/rt/model.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index 1f5c9da..eff12d4 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1514,8 +1514,16 @@ static void clone_source(rt_model_t *m, rt_nexus_t *nexus,
       {
          new->u.port.input = old->u.port.input;
 
-         if (old->u.port.conv_func != NULL)
+         if (old->u.port.conv_func != NULL) {
             new->u.port.conv_func = old->u.port.conv_func;
+            new->u.port.conv_result = alloc_value(m, nexus);
+            split_value(nexus, &new->u.port.conv_result,
+                        &old->u.port.conv_result, offset);
+
+            // Insert into the list of outputs of the conversion
+            new->chain_output = old->chain_output;
+            old->chain_output = new;
+         }
          else {
             if (old->u.port.input->width == offset)
                new->u.port.input = old->u.port.input->chain;  // Cycle breaking
@@ -1640,8 +1648,13 @@ static rt_nexus_t *clone_nexus(rt_model_t *m, rt_nexus_t *old, int offset)
       assert(old_o->tag == SOURCE_PORT || old_o->tag == SOURCE_IMPLICIT);
 
       if (old_o->tag == SOURCE_PORT && old_o->u.port.conv_func != NULL) {
-         new->outputs = old_o;
-         add_conversion_input(m, old_o->u.port.conv_func, new);
+         // The list of outputs of the conversion is shared
+         rt_source_t **p = &(new->outputs);
+         for (; *p != NULL && *p != old_o; p = &((*p)->chain_output));
+         *p = old_o;
+
+         if (find_conversion_input(old_o->u.port.conv_func, new) == NULL)
+            add_conversion_input(m, old_o->u.port.conv_func, new);
       }
       else if (old_o->tag == SOURCE_IMPLICIT) {
          // Each part of the signal needs its own source on the implicit
-- 
2.43.0


From acb5ee10e1debc88aa641a1e18d5258634ca81c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 44/80] fix: conversion functions of in ports read stale values
 of signals with separate effective values

---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index eff12d4..ef3d7fb 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3011,6 +3011,12 @@ static void put_driving(rt_model_t *m, rt_nexus_t *n, const void *value)
 
       memcpy(nexus_driving(n), value, n->size * n->width);
 
+      // The effective value of a signal that is not an inout port is the
+      // same as its driving value and may be needed before the effective
+      // values are updated as the input of a conversion function
+      if (!(n->flags & NET_F_INOUT))
+         put_effective(m, n, value);
+
       assert(!(n->flags & NET_F_PENDING));
       n->flags |= NET_F_PENDING;
       heap_insert(m->effective_heap, MAX_RANK - n->rank, n);
-- 
2.43.0


From d043dfe6217f892ee5e6d874fcbc3802997101f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 45/80] fix: inout ports associated through conversion
 functions missed updates of the actual

---
 src/rt/model.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index ef3d7fb..e026f18 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -4869,6 +4869,14 @@ void x_convert_in(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
       for (; *p != NULL && *p != cf->outputs; p = &((*p)->chain_output));
       *p = cf->outputs;
    }
+
+   if (cf->effective.handle != JIT_HANDLE_INVALID) {
+      // Effective value updates must propagate through the conversion
+      for (rt_source_t *o = cf->outputs; o; o = o->chain_output) {
+         if (o->tag == SOURCE_PORT && o->u.port.conv_func == cf)
+            o->u.port.output->flags |= NET_F_EFFECTIVE;
+      }
+   }
 }
 
 void x_convert_out(void *ptr, sig_shared_t *ss, uint32_t offset, int32_t count)
-- 
2.43.0


From bcb3126b82096418195c2bd288fdd04e1e72bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 46/80] fix: conversion functions overwrote values being
 resolved

---
 src/rt/model.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index e026f18..def19c1 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1810,6 +1810,7 @@ static void convert_driving(rt_conv_func_t *cf)
          istr(jit_get_name(m->jit, cf->driving.handle)));
 
    model_thread_t *thread = model_thread(m);
+   const unsigned mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->driving.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1817,7 +1818,8 @@ static void convert_driving(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   // The caller may have live allocations
+   thread->tlab->alloc = mark;
 }
 
 static void convert_effective(rt_conv_func_t *cf)
@@ -1835,6 +1837,7 @@ static void convert_effective(rt_conv_func_t *cf)
          istr(jit_get_name(m->jit, cf->effective.handle)));
 
    model_thread_t *thread = model_thread(m);
+   const unsigned mark = thread->tlab->alloc;
 
    jit_scalar_t context = { .pointer = cf->effective.context };
    jit_scalar_t arg = { .pointer = cf }, result;
@@ -1842,7 +1845,8 @@ static void convert_effective(rt_conv_func_t *cf)
                      thread->tlab))
       m->force_stop = true;
 
-   tlab_reset(thread->tlab);   // No allocations can be live past here
+   // The caller may have live allocations
+   thread->tlab->alloc = mark;
 }
 
 static void *source_value(rt_nexus_t *nexus, rt_source_t *src)
-- 
2.43.0


From 96d788c02109b37b37bc494602139bbd00ad5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 47/80] fix: crash reporting an error in a port conversion to
 part of a signal

---
 src/jit/jit-core.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jit/jit-core.c b/src/jit/jit-core.c
index 1c59b45..4833eac 100644
--- a/src/jit/jit-core.c
+++ b/src/jit/jit-core.c
@@ -561,6 +561,11 @@ static void jit_emit_trace(diag_t *d, const loc_t *loc, object_t *enclosing,
       case T_PARAM_DECL:
          diag_trace(d, loc, "Parameter %s", istr(tree_ident(tree)));
          break;
+      case T_ARRAY_REF:
+      case T_ARRAY_SLICE:
+      case T_RECORD_REF:
+         tree = name_to_ref(tree);   // Target of port conversion
+         // Fall-through
       default:
          {
             const char *class = class_str(class_of(tree));
-- 
2.43.0


From fd1b92d19c19a58fc38a112ae30fe76557ccae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:48 +0000
Subject: [PATCH 48/80] fix: negative elements of arrays folded by type
 conversion became positive

---
 src/eval.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/eval.c b/src/eval.c
index 6f5ffba..bc8a745 100644
--- a/src/eval.c
+++ b/src/eval.c
@@ -131,6 +131,13 @@ static void *thunk_result_cb(jit_scalar_t *args, void *user)
       }
 
       const int bytes = (type_bit_width(elem) + 7) / 8;
+
+      bool is_signed = false;
+      if (!type_is_enum(elem) && !type_is_real(elem)) {
+         int64_t low, high;
+         is_signed = !folded_bounds(range_of(base, 0), &low, &high) || low < 0;
+      }
+
       tree_t *elts LOCAL = xmalloc_array(length, sizeof(tree_t));
       for (int i = 0; i < length; i++) {
 #define UNPACK_VALUE(type) do {                                    \
@@ -140,6 +147,11 @@ static void *thunk_result_cb(jit_scalar_t *args, void *user)
          jit_scalar_t value = { .integer = 0 };
          FOR_ALL_SIZES(bytes, UNPACK_VALUE);
 
+         if (is_signed) {
+            const int shift = 64 - bytes * 8;
+            value.integer = (int64_t)((uint64_t)value.integer << shift) >> shift;
+         }
+
          if (lits != NULL) {
             assert(value.integer >= 0);
 
-- 
2.43.0


From c29601bfb53bc6eb58778a71bf107976278b9d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 49/80] fix: 'VALUE of integers with base or exponent and of
 extended identifiers

---
 lib/nvc/text_util-body.vhd | 131 ++++++++++++++++++++++++++++++-------
 1 file changed, 109 insertions(+), 22 deletions(-)

diff --git a/lib/nvc/text_util-body.vhd b/lib/nvc/text_util-body.vhd
index d2c41ac..f823ed3 100644
--- a/lib/nvc/text_util-body.vhd
+++ b/lib/nvc/text_util-body.vhd
@@ -171,31 +171,23 @@ package body text_util is
         return xp >= 48 and xp <= 57;
     end function;
 
-    function canon_value (s : string) return string is
-        constant length  : natural := s'length;
-        alias ss         : string(1 to length) is s;
-        variable result  : string(1 to length);
-        variable trimmed : positive := 1;
-        variable char    : character;
-        variable upcase  : boolean := true;
+    function hex_digit (x : in character) return natural is
+        constant xp : natural := character'pos(toupper(x));
     begin
-        for i in 1 to length loop
-            char := ss(i);
-            if isspace(char) then
-                next;
-            elsif char = ''' then
-                upcase := not upcase;
-            end if;
-            if upcase then
-                result(trimmed) := toupper(char);
-            else
-                result(trimmed) := char;
-            end if;
-            trimmed := trimmed + 1;
-        end loop;
-        return result(1 to trimmed - 1);
+        if isdigit(x) then
+            return xp - character'pos('0');
+        elsif xp >= character'pos('A') and xp <= character'pos('F') then
+            return xp - character'pos('A') + 10;
+        else
+            return 16;
+        end if;
     end function;
 
+    procedure scan_integer_tail (s        : in string;
+                                 pos      : inout positive;
+                                 value    : inout t_int64;
+                                 negative : in boolean);
+
     procedure string_to_int (s     : in string;
                              value : out t_int64;
                              used  : out natural)
@@ -205,6 +197,7 @@ package body text_util is
         variable pos         : positive := 1;
         variable is_negative : boolean;
         variable result      : t_int64 := 0;
+        variable negated     : boolean;
         variable num_digits  : natural;
         constant ascii_zero  : natural := character'pos('0');
         variable ascii_value : natural;
@@ -231,6 +224,7 @@ package body text_util is
                 if is_negative and result > 0 then
                     -- Negate now to avoid problems around INTEGER'LOW
                     result := -result;
+                    negated := true;
                     is_negative := false;
                 end if;
                 num_digits := num_digits + 1;
@@ -238,6 +232,12 @@ package body text_util is
             pos := pos + 1;
         end loop;
 
+        -- Parse the remainder of a based literal or the exponent of a
+        -- decimal literal
+        if num_digits > 0 and pos < length then
+            scan_integer_tail(ss, pos, result, negated);
+        end if;
+
         assert num_digits > 0
             report "invalid integer value """ & s & """" severity failure;
 
@@ -443,4 +443,91 @@ package body text_util is
     begin
         assert false severity failure;
     end function;
+
+    function canon_value (s : string) return string is
+        constant length  : natural := s'length;
+        alias ss         : string(1 to length) is s;
+        variable result  : string(1 to length);
+        variable trimmed : positive := 1;
+        variable char    : character;
+        variable quote   : character;
+        variable first   : natural;
+        variable upcase  : boolean := true;
+    begin
+        for i in 1 to length loop
+            char := ss(i);
+            if isspace(char) and upcase then
+                next;
+            elsif upcase and (char = ''' or char = '\') then
+                upcase := false;
+                quote := char;
+                first := trimmed;
+            elsif not upcase and char = quote and trimmed > first + 1 then
+                upcase := true;
+            end if;
+            if upcase then
+                result(trimmed) := toupper(char);
+            else
+                result(trimmed) := char;
+            end if;
+            trimmed := trimmed + 1;
+        end loop;
+        return result(1 to trimmed - 1);
+    end function;
+
+    procedure scan_integer_tail (s        : in string;
+                                 pos      : inout positive;
+                                 value    : inout t_int64;
+                                 negative : in boolean)
+    is
+        variable digit : natural;
+        variable base  : t_int64 := 10;
+        variable exp   : natural := 0;
+        variable p_exp : positive;
+    begin
+        if s(pos) = '#' then
+            -- Based literal
+            base := abs value;
+            value := 0;
+            pos := pos + 1;
+            while pos <= s'length and s(pos) /= '#' loop
+                if s(pos) /= '_' then
+                    digit := hex_digit(s(pos));
+                    assert t_int64(digit) < base
+                        report "invalid digit in integer value """ & s & """"
+                        severity failure;
+                    if negative then
+                        value := (value * base) - t_int64(digit);
+                    else
+                        value := (value * base) + t_int64(digit);
+                    end if;
+                end if;
+                pos := pos + 1;
+            end loop;
+            assert pos <= s'length
+                report "missing closing # in integer value """ & s & """"
+                severity failure;
+            pos := pos + 1;
+        end if;
+
+        if pos < s'length and toupper(s(pos)) = 'E' then
+            p_exp := pos + 1;
+            if p_exp < s'length and s(p_exp) = '+' then
+                p_exp := p_exp + 1;
+            end if;
+            if isdigit(s(p_exp)) then
+                pos := p_exp;
+                while pos <= s'length and (isdigit(s(pos)) or s(pos) = '_') loop
+                    if s(pos) /= '_' then
+                        exp := exp * 10 + character'pos(s(pos)) - character'pos('0');
+                    end if;
+                    pos := pos + 1;
+                end loop;
+                while exp > 0 and value /= 0 loop
+                    value := value * base;
+                    exp := exp - 1;
+                end loop;
+            end if;
+        end if;
+    end procedure;
 end package body;
-- 
2.43.0


From f478a5d038d1388c65bc854229d70b11a5f4f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 50/80] fix: 'IMAGE changed the case of extended identifiers

---
 src/lower.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lower.c b/src/lower.c
index c0b202d..150435f 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -8467,7 +8467,8 @@ static void lower_enum_image_helper(type_t type, vcode_reg_t preg)
       // LRM specifies result is lowercase for enumerated types when
       // the value is a basic identifier
       ident_t id = tree_ident(type_enum_literal(type, i));
-      if (ident_char(id, 0) != '\'')
+      const char last = ident_char(id, 0);
+      if (last != '\'' && last != '\\')
          id = ident_downcase(id);
 
       vcode_select_block(blocks[i]);
-- 
2.43.0


From a3fac7b55b479da0d4e0298198f6e95965813e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:28 +0000
Subject: [PATCH 51/80] fix: wrong bounds of base type

---
 src/names.c |  5 +----
 src/parse.c |  4 +---
 src/simp.c  | 13 ++++++++-----
 3 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/names.c b/src/names.c
index 5b14497..985a4e0 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4397,10 +4397,7 @@ static type_t try_solve_attr_ref(nametab_t *tab, tree_t aref)
 
    case ATTR_BASE:
       if (prefix_type != NULL) {
-         if (type_kind(prefix_type) == T_SUBTYPE)
-            type = type_base(prefix_type);
-         else
-            type = prefix_type;
+         type = type_base_recur(prefix_type);
       }
       break;
 
diff --git a/src/parse.c b/src/parse.c
index 77b973c..83cabb3 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -2037,10 +2037,8 @@ static type_t apply_base_attribute(tree_t aref)
                   "or subtype declaration");
       return type_new(T_NONE);
    }
-   else if (type_kind(type) == T_SUBTYPE)
-      return type_base(type);
    else
-      return type;
+      return type_base_recur(type);
 }
 
 static type_t apply_index_attribute(tree_t aref)
diff --git a/src/simp.c b/src/simp.c
index c3cd6ee..b695c9c 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -523,7 +523,6 @@ static tree_t simp_attr_ref(tree_t t, simp_ctx_t *ctx)
             // Try to rewrite expressions like X'RANGE(1)'LEFT to X'LEFT(1)
             switch (tree_subkind(name)) {
             case ATTR_RANGE:
-            case ATTR_BASE:
             case ATTR_REVERSE_RANGE:
                {
                   tree_t prefix = tree_name(name);
@@ -542,9 +541,9 @@ static tree_t simp_attr_ref(tree_t t, simp_ctx_t *ctx)
                      tree_t p0 = tree_param(name, 0);
                      int64_t dim;
                      if (!folded_int(tree_value(p0), &dim))
-                        break;
+                        return t;
                      else if (dim < 1 || dim > dimension_of(tree_type(prefix)))
-                        break;
+                        return t;
 
                      tree_add_param(new, p0);
                   }
@@ -553,9 +552,13 @@ static tree_t simp_attr_ref(tree_t t, simp_ctx_t *ctx)
 
                   return new;
                }
-            }
 
-            break;  // Prefix may contain errors
+            case ATTR_BASE:
+               break;   // Use bounds of base type below
+
+            default:
+               return t;  // Prefix may contain errors
+            }
          }
 
          type_t type = tree_type(name);
-- 
2.43.0


From 490cb1119b9a74ca418940b6c988c1dab8674f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 52/80] fix: arithmetic shifts replicated the wrong element

---
 src/vhdl/vhdl-predef.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/vhdl/vhdl-predef.c b/src/vhdl/vhdl-predef.c
index 3fe340b..749a8de 100644
--- a/src/vhdl/vhdl-predef.c
+++ b/src/vhdl/vhdl-predef.c
@@ -78,27 +78,34 @@ static void predef_bit_shift(mir_unit_t *mu, tree_t decl,
    mir_block_t body_bb = mir_add_block(mu);
    mir_block_t exit_bb = mir_add_block(mu);
 
+   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
+   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
+
    mir_value_t def_val = MIR_NULL_VALUE;
    switch (kind) {
    case S_SLL: case S_SRL: case S_ROL: case S_ROR:
       def_val = zero;
       break;
-   case S_SRA:
+   case S_SRA: case S_SLA:
       {
+         // Arithmetic shift right replicates the leftmost element and
+         // left the rightmost: a negative shift reverses the direction
          mir_value_t len_minus_1 = mir_build_sub(mu, t_offset, len, one);
          mir_value_t last_ptr = mir_build_array_ref(mu, data, len_minus_1);
-         def_val = mir_build_load(mu, last_ptr);
+         mir_value_t last = mir_build_load(mu, last_ptr);
+         mir_value_t first = mir_build_load(mu, data);
+         if (kind == S_SRA)
+            def_val = mir_build_select(mu, elem->type, shift_is_neg,
+                                       last, first);
+         else
+            def_val = mir_build_select(mu, elem->type, shift_is_neg,
+                                       first, last);
       }
       break;
-   case S_SLA:
-      def_val = mir_build_load(mu, data);
-      break;
    default:
       should_not_reach_here();
    }
 
-   mir_value_t shift_cast = mir_build_cast(mu, t_offset, shift);
-   mir_value_t shift_is_neg = mir_build_cmp(mu, MIR_CMP_LT, shift_cast, zero);
    mir_build_jump(mu, cmp_bb);
 
    mir_set_cursor(mu, cmp_bb, MIR_APPEND);
-- 
2.43.0


From 25ec0a145dd474c594c019a3602b21fad257611e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 53/80] fix: ordering of null arrays and equality of
 multi-dimensional arrays

---
 src/lower.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/lower.c b/src/lower.c
index 150435f..e8de1b2 100644
--- a/src/lower.c
+++ b/src/lower.c
@@ -10316,15 +10316,19 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
    assert(dimension_of(right_type) == ndims);
 
    vcode_reg_t left_len = lower_array_len(lu, left_type, 0, lhs_array);
-   for (int i = 1; i < ndims; i++) {
-      vcode_reg_t dim_len = lower_array_len(lu, left_type, i, lhs_array);
-      left_len = emit_mul(dim_len, left_len);
-   }
-
    vcode_reg_t right_len = lower_array_len(lu, right_type, 0, rhs_array);
+   vcode_reg_t dims_eq = VCODE_INVALID_REG;
+   if (ndims > 1)
+      dims_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
+
    for (int i = 1; i < ndims; i++) {
-      vcode_reg_t dim_len = lower_array_len(lu, right_type, i, rhs_array);
-      right_len = emit_mul(dim_len, right_len);
+      vcode_reg_t left_dim = lower_array_len(lu, left_type, i, lhs_array);
+      vcode_reg_t right_dim = lower_array_len(lu, right_type, i, rhs_array);
+      vcode_reg_t dim_eq = emit_cmp(VCODE_CMP_EQ, left_dim, right_dim);
+
+      dims_eq = emit_and(dims_eq, dim_eq);
+      left_len = emit_mul(left_dim, left_len);
+      right_len = emit_mul(right_dim, right_len);
    }
 
    vcode_type_t voffset = vtype_offset();
@@ -10343,6 +10347,13 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
 
    vcode_reg_t len_eq = emit_cmp(VCODE_CMP_EQ, left_len, right_len);
 
+   if (dims_eq != VCODE_INVALID_REG) {
+      // The length of each dimension must match unless both are null
+      vcode_reg_t zero = emit_const(voffset, 0);
+      vcode_reg_t is_null = emit_cmp(VCODE_CMP_EQ, left_len, zero);
+      len_eq = emit_and(len_eq, emit_or(dims_eq, is_null));
+   }
+
    if (pred == VCODE_CMP_EQ)
       emit_cond(len_eq, test_bb, fail_bb);
    else
@@ -10362,7 +10373,17 @@ static void lower_array_cmp_inner(lower_unit_t *lu,
       vcode_block_t check_r_len_bb = emit_block();
 
       vcode_reg_t len_ge_l = emit_cmp(VCODE_CMP_GEQ, i_loaded, left_len);
-      emit_cond(len_ge_l, exit_bb, check_r_len_bb);
+
+      if (pred == VCODE_CMP_LT) {
+         // Left array is exhausted: only less if it is a proper prefix
+         vcode_block_t prefix_bb = emit_block();
+         emit_cond(len_ge_l, prefix_bb, check_r_len_bb);
+
+         vcode_select_block(prefix_bb);
+         emit_cond(len_eq, fail_bb, exit_bb);
+      }
+      else
+         emit_cond(len_ge_l, exit_bb, check_r_len_bb);
 
       vcode_select_block(check_r_len_bb);
 
-- 
2.43.0


From 533ec3704856e6c6fd94613b876cbdcc8c763aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 54/80] fix: searching a hash table created with one or two
 slots could loop forever

---
 src/hash.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 5af46e5..7182f5c 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -22,6 +22,15 @@
 #include <string.h>
 #include <assert.h>
 
+// The tables grow when more than half the slots are used: a smaller one
+// could become full and then a search for a missing key never ends
+#define MIN_SIZE 4
+
+static inline int hash_initial_size(int size)
+{
+   return next_power_of_2(MAX(size, MIN_SIZE));
+}
+
 ////////////////////////////////////////////////////////////////////////////////
 // Hash table of pointers to pointers
 
@@ -41,7 +50,7 @@ static inline int hash_slot(unsigned size, const void *key)
 hash_t *hash_new(int size)
 {
    hash_t *h = xmalloc(sizeof(hash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = hash_initial_size(size);
    h->members = 0;
 
    char *mem = xcalloc(h->size * 2 * sizeof(void *));
@@ -192,7 +201,7 @@ static inline int shash_slot(shash_t *h, const char *key)
 shash_t *shash_new(int size)
 {
    shash_t *h = xmalloc(sizeof(shash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = hash_initial_size(size);
    h->members = 0;
 
    char *mem = xcalloc(h->size * 2 * sizeof(void *));
@@ -330,7 +339,7 @@ static inline int ihash_slot(ihash_t *h, uint64_t key)
 ihash_t *ihash_new(int size)
 {
    ihash_t *h = xmalloc(sizeof(ihash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = hash_initial_size(size);
    h->members = 0;
 
    const size_t bytes =
@@ -438,7 +447,7 @@ struct _hset {
 hset_t *hset_new(int size)
 {
    hset_t *h = xmalloc(sizeof(hset_t));
-   h->size    = next_power_of_2(size);
+   h->size    = hash_initial_size(size);
    h->members = 0;
    h->keys    = xcalloc_array(h->size, sizeof(void *));
 
@@ -533,7 +542,7 @@ typedef enum {
 
 chash_t *chash_new(int size)
 {
-   const int roundup = next_power_of_2(size);
+   const int roundup = hash_initial_size(size);
 
    chash_tab_t *tab =
       xcalloc_flex(sizeof(chash_tab_t), roundup, sizeof(chash_slot_t));
@@ -829,7 +838,7 @@ static inline int ghash_slot(ghash_t *h, const char *key)
 ghash_t *ghash_new(int size, ghash_hash_fn_t hash_fn, ghash_cmp_fn_t cmp_fn)
 {
    ghash_t *h = xmalloc(sizeof(ghash_t));
-   h->size    = next_power_of_2(size);
+   h->size    = hash_initial_size(size);
    h->members = 0;
    h->hash_fn = hash_fn;
    h->cmp_fn  = cmp_fn;
-- 
2.43.0


From 4246f1bff392345e8450e4cd78ac24c3ac36cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 55/80] fix: replacing a value in a generic hash table added a
 second entry and deleting a missing key crashed

---
 src/hash.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 7182f5c..c0554bc 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -892,8 +892,10 @@ void ghash_put(ghash_t *h, const void *key, void *value)
          h->members++;
          break;
       }
-      else if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key))
+      else if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key)) {
          h->values[slot] = value;
+         break;
+      }
    }
 }
 
@@ -914,11 +916,11 @@ void ghash_delete(ghash_t *h, const void *key)
    int slot = ghash_slot(h, key);
 
    for (; ; slot = (slot + 1) & (h->size - 1)) {
-      if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key)) {
+      if (h->keys[slot] == NULL)
+         return;
+      else if (h->keys[slot] == key || (*h->cmp_fn)(h->keys[slot], key)) {
          h->values[slot] = NULL;
          return;
       }
-      else if (h->keys[slot] == NULL)
-         return;
    }
 }
-- 
2.43.0


From cdb6360c43c8ae58c3d2fe745127e9a0e9ec80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 56/80] fix: chash_cas did not count the entries it added so
 the table never grew

---
 src/hash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hash.c b/src/hash.c
index c0554bc..3a3fb9b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -735,6 +735,8 @@ static bool chash_try_cas(chash_t *h, const void *key, void *cmp, void **value)
                   tab->slots[i].value = new;
                void *inuse = tag_pointer(key, INUSE_MARKER);
                store_release(&tab->slots[i].tagged_key, inuse);
+               if (marker == FREE_MARKER)
+                  relaxed_add(&h->members, 1);
                return true;
             }
             else {
-- 
2.43.0


From 204cdde14693c0e49809257e957945a1a12e3605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:28 +0000
Subject: [PATCH 57/80] fix: case insensitive comparison of identifiers ignored
 the case of letters outside ASCII on x86-64

---
 src/ident.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ident.c b/src/ident.c
index 5d6b08c..0126740 100644
--- a/src/ident.c
+++ b/src/ident.c
@@ -770,8 +770,14 @@ bool ident_casecmp(ident_t a, ident_t b)
       __m128i b_toupper = _mm_sub_epi8(bv, _mm_and_si128(b_mask, delta));
 
       __m128i cmp = _mm_cmpeq_epi8(a_toupper, b_toupper);
-      if (_mm_movemask_epi8(cmp) != 0xffff)
-         return false;
+      if (_mm_movemask_epi8(cmp) == 0xffff)
+         continue;
+
+      // Characters outside ASCII also have upper and lower case
+      for (int i = pos; i < MIN(pos + 16, a->length); i++) {
+         if (toupper_iso88591(a->bytes[i]) != toupper_iso88591(b->bytes[i]))
+            return false;
+      }
    }
 #else
    for (int i = 0; i < a->length; i++) {
-- 
2.43.0


From 0c6b8738c144bb24412169ca320547e9721cffde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:16 +0000
Subject: [PATCH 58/80] fix: an update of the concurrent hash table could be
 lost while the table was growing

---
 src/hash.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/hash.c b/src/hash.c
index 3a3fb9b..a62652d 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -592,6 +592,12 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
             continue;
          case INUSE_MARKER:
             {
+               // Must CAS to busy here or an update made while copying
+               // the value would be lost
+               void *busy = tag_pointer(key, BUSY_MARKER);
+               if (!atomic_cas(&(from->slots[i].tagged_key), tagged_key, busy))
+                  continue;
+
                for (int j = hash_slot(to->size, key);;
                     j = (j + 1) & (to->size - 1)) {
                   void *exist = load_acquire(&(to->slots[j].tagged_key));
@@ -603,19 +609,23 @@ static void chash_copy_table(chash_tab_t *from, chash_tab_t *to)
                   else
                      assert(exist != tagged_key);
                }
+
+               void *moved = tag_pointer(key, MOVED_MARKER);
+               store_release(&(from->slots[i].tagged_key), moved);
             }
             break;
          case FREE_MARKER:
+            {
+               void *moved = tag_pointer(NULL, MOVED_MARKER);
+               if (!atomic_cas(&(from->slots[i].tagged_key), NULL, moved))
+                  continue;   // Raced to move free slot
+            }
             break;
          default:
             should_not_reach_here();
          }
 
-         void *moved = tag_pointer(key, MOVED_MARKER);
-         if (atomic_cas(&(from->slots[i].tagged_key), tagged_key, moved))
-            break;
-         else
-            assert(marker == FREE_MARKER);   // Raced to move free slot
+         break;
       }
    }
 }
-- 
2.43.0


From fac42f3cf00e14302553e3ba8e8df479a7e82748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:39 +0000
Subject: [PATCH 59/80] fix: exit status is failure when the last cycle is at
 the delta limit

model_exit_status compared the number of the last delta cycle with the
limit instead of testing whether the limit was exceeded, so a simulation
that quiesced in exactly that delta cycle returned a non-zero status
without any message.
---
 src/rt/model.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rt/model.c b/src/rt/model.c
index def19c1..058d92d 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -110,6 +110,7 @@ typedef struct _rt_model {
    bool               can_create_delta;
    bool               next_is_delta;
    bool               force_stop;
+   bool               limit_reached;
    unsigned           n_signals;
    heap_t            *eventq_heap;
    ihash_t           *res_memo;
@@ -3314,6 +3315,7 @@ static void reached_iteration_limit(rt_model_t *m)
    diag_hint(d, NULL, "you can increase this limit with $bold$--stop-delta$$");
    diag_emit(d);
 
+   m->limit_reached = true;
    m->force_stop = true;
 }
 
@@ -3771,7 +3773,7 @@ int model_exit_status(rt_model_t *m)
    int status;
    if (jit_exit_status(m->jit, &status))
       return status;
-   else if (m->stop_delta > 0 && m->iteration == m->stop_delta)
+   else if (m->limit_reached)
       return EXIT_FAILURE;
    else
       return get_vhdl_assert_exit_status();
-- 
2.43.0


From 872f5c78704d2d0c0cd8058d835ae3f69e5d3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 60/80] fix: assertions while memoising a resolution function
 changed the exit status

The resolution function is called speculatively with all combinations of
values and its reports are suppressed, but they were still counted and
so made the exit status non-zero even if they never happened in the
simulation.
---
 src/rt/assert.c | 6 ++++++
 src/rt/assert.h | 1 +
 src/rt/model.c  | 9 +++++++++
 3 files changed, 16 insertions(+)

diff --git a/src/rt/assert.c b/src/rt/assert.c
index 2bcb43d..17a6f2a 100644
--- a/src/rt/assert.c
+++ b/src/rt/assert.c
@@ -510,6 +510,12 @@ int64_t get_vhdl_assert_count(vhdl_severity_t severity)
    return counts[severity];
 }
 
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count)
+{
+   assert(severity <= SEVERITY_FAILURE);
+   counts[severity] = count;
+}
+
 void clear_vhdl_assert(void)
 {
    for (int i = SEVERITY_NOTE; i <= SEVERITY_FAILURE; i++)
diff --git a/src/rt/assert.h b/src/rt/assert.h
index 54cafcb..5bb041e 100644
--- a/src/rt/assert.h
+++ b/src/rt/assert.h
@@ -33,6 +33,7 @@ void set_status_severity(vhdl_severity_t severity);
 void set_stderr_severity(vhdl_severity_t severity);
 
 int64_t get_vhdl_assert_count(vhdl_severity_t severity);
+void set_vhdl_assert_count(vhdl_severity_t severity, int64_t count);
 void clear_vhdl_assert(void);
 void set_vhdl_assert_enable(vhdl_severity_t severity, bool enable);
 bool get_vhdl_assert_enable(vhdl_severity_t severity);
diff --git a/src/rt/model.c b/src/rt/model.c
index 058d92d..3f5471d 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -1032,6 +1032,12 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
 
    const vhdl_severity_t old_severity = set_exit_severity(SEVERITY_NOTE);
 
+   // Failures for combinations of values that may never occur in the
+   // simulation must not be counted
+   int64_t old_counts[SEVERITY_FAILURE + 1];
+   for (int i = 0; i <= SEVERITY_FAILURE; i++)
+      old_counts[i] = get_vhdl_assert_count(i);
+
    jit_set_silent(m->jit, true);
 
    // Memoise the function for all two value cases
@@ -1075,6 +1081,9 @@ static res_memo_t *memo_resolution_fn(rt_model_t *m, rt_signal_t *signal,
    jit_set_silent(m->jit, false);
    jit_reset_exit_status(m->jit);
 
+   for (int i = 0; i <= SEVERITY_FAILURE; i++)
+      set_vhdl_assert_count(i, old_counts[i]);
+
    set_exit_severity(old_severity);
 
    return memo;
-- 
2.43.0


From 2adb876d6729b44d623cdbeabaa69e9cd785b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:02 +0000
Subject: [PATCH 61/80] fix: conditional analysis of chained, nested and
 repeated branches

A condition may contain more than two relations joined by the same
logical operator.  Conditions nested in text that is not selected were
evaluated and undefined identifiers in them reported as errors.  A
second `else, or an `elsif after `else, was accepted, and the text
after it could be selected.
---
 src/scan.c | 70 ++++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/src/scan.c b/src/scan.c
index fa0524d..0d9e2ff 100644
--- a/src/scan.c
+++ b/src/scan.c
@@ -33,6 +33,8 @@
 typedef struct {
    bool  result;
    bool  taken;
+   bool  suppressed;   // Nested inside a branch that is not taken
+   bool  has_else;
    loc_t loc;
 } cond_state_t;
 
@@ -54,6 +56,7 @@ static int            colno;
 static int            lineno;
 static int            lookahead;
 static int            pperrors;
+static bool           pp_suppress;
 static cond_stack_t   cond_stack;
 static shash_t       *pp_defines;
 static macro_stack_t  macro_stack;
@@ -403,8 +406,11 @@ static bool pp_cond_analysis_relation(void)
 
          if (pp_expect(tSTRING)) {
             const char *value = shash_get(pp_defines, name);
-            if (value == NULL)
-               pp_error("undefined conditional analysis identifier %s", name);
+            if (value == NULL) {
+               if (!pp_suppress)
+                  pp_error("undefined conditional analysis identifier %s",
+                           name);
+            }
             else {
                char *cmp = yylval.str + 1;
                cmp[strlen(cmp) - 1] = '\0';
@@ -456,24 +462,35 @@ static bool pp_cond_analysis_expr(void)
    //   | conditional_analysis_relation { xor conditional_analysis_relation }
    //   | conditional_analysis_relation { xnor conditional_analysis_relation }
 
-   const bool lhs = pp_cond_analysis_relation();
-   switch ((lookahead = pp_yylex())) {
-   case tAND:
-      lookahead = -1;
-      return pp_cond_analysis_relation() && lhs;
-   case tOR:
-      lookahead = -1;
-      return pp_cond_analysis_relation() || lhs;
-   case tXOR:
-      lookahead = -1;
-      return pp_cond_analysis_relation() ^ lhs;
-   case tXNOR:
-      lookahead = -1;
-      return !(pp_cond_analysis_relation() ^ lhs);
-   default:
-      return lhs;
+   bool result = pp_cond_analysis_relation();
+
+   const token_t op = lookahead = pp_yylex();
+   while (lookahead == op) {
+      switch (op) {
+      case tAND:
+         lookahead = -1;
+         result &= pp_cond_analysis_relation();
+         break;
+      case tOR:
+         lookahead = -1;
+         result |= pp_cond_analysis_relation();
+         break;
+      case tXOR:
+         lookahead = -1;
+         result ^= pp_cond_analysis_relation();
+         break;
+      case tXNOR:
+         lookahead = -1;
+         result = !(result ^ pp_cond_analysis_relation());
+         break;
+      default:
+         return result;
+      }
+
+      lookahead = pp_yylex();
    }
-   return lhs;
+
+   return result;
 }
 
 static void macro_hint_cb(diag_t *d, void *ctx)
@@ -561,9 +578,13 @@ token_t processed_yylex(void)
       case tCONDIF:
          {
             cond_state_t new = { .loc = yylloc };
+            new.suppressed = cond_stack.count > 0 && !ATOP(cond_stack).result;
+
+            pp_suppress = new.suppressed;
             new.result = new.taken = pp_cond_analysis_expr();
+            pp_suppress = false;
 
-            if (cond_stack.count > 0 && !ATOP(cond_stack).result) {
+            if (new.suppressed) {
                // Suppress nested conditionals in not-taken branches
                new.taken = true;
                new.result = false;
@@ -585,8 +606,13 @@ token_t processed_yylex(void)
             if (cond_stack.count == 0)
                pp_error("unexpected $yellow$%s$$ outside conditional "
                         "analysis block", token_str(token));
+            else if (ATOP(cond_stack).has_else)
+               pp_error("unexpected $yellow$%s$$ after $yellow$`else$$",
+                        token_str(token));
 
+            pp_suppress = cond_stack.count > 0 && ATOP(cond_stack).suppressed;
             const bool result = pp_cond_analysis_expr();
+            pp_suppress = false;
 
             if (cond_stack.count > 0) {
                if (!ATOP(cond_stack).taken) {
@@ -608,6 +634,10 @@ token_t processed_yylex(void)
                         "analysis block", token_str(token));
             else {
                cond_state_t *cs = &(cond_stack.items[cond_stack.count - 1]);
+               if (cs->has_else)
+                  pp_error("unexpected $yellow$%s$$ after $yellow$`else$$",
+                           token_str(token));
+               cs->has_else = true;
                cs->result = !(cs->taken);
             }
          }
-- 
2.43.0


From 0bb85b521fc3e2e64f4efcb0bc818ec66bcf5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:07 +0000
Subject: [PATCH 62/80] fix: conditional analysis identifiers given in lower
 case were never found

---
 src/scan.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/scan.c b/src/scan.c
index 0d9e2ff..7a52bde 100644
--- a/src/scan.c
+++ b/src/scan.c
@@ -66,6 +66,7 @@ extern int yylex(void);
 extern void reset_scanner(void);
 
 static bool pp_cond_analysis_expr(void);
+static const char *pp_defines_lookup(const char *name);
 static void pp_defines_init();
 
 yylval_t yylval;
@@ -322,6 +323,24 @@ void pp_defines_add(const char *name, const char *value)
    shash_put(pp_defines, name, xstrdup(value));
 }
 
+static const char *pp_defines_lookup(const char *name)
+{
+   // Identifiers are not case sensitive in VHDL but the same table is
+   // used for Verilog macros
+   const char *value = shash_get(pp_defines, name);
+   if (value != NULL)
+      return value;
+
+   const char *key;
+   void *ptr;
+   for (hash_iter_t it = HASH_BEGIN; shash_iter(pp_defines, &it, &key, &ptr);) {
+      if (strcasecmp(key, name) == 0)
+         return ptr;
+   }
+
+   return NULL;
+}
+
 const char *pp_defines_get(const char *name)
 {
    pp_defines_init();
@@ -405,7 +424,7 @@ static bool pp_cond_analysis_relation(void)
          token_t rel = pp_yylex();
 
          if (pp_expect(tSTRING)) {
-            const char *value = shash_get(pp_defines, name);
+            const char *value = pp_defines_lookup(name);
             if (value == NULL) {
                if (!pp_suppress)
                   pp_error("undefined conditional analysis identifier %s",
-- 
2.43.0


From d07fd733b7a9b89b2344958e0a65ebfecb661f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:27 +0000
Subject: [PATCH 63/80] fix: FILE_SIZE and FILE_CANSEEK crashed when called on
 a closed file

---
 src/rt/fileio.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt/fileio.c b/src/rt/fileio.c
index e039f5f..5adf9c8 100644
--- a/src/rt/fileio.c
+++ b/src/rt/fileio.c
@@ -368,7 +368,7 @@ void __nvc_file_size(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_SIZE called on closed file");
 
    fflush(slot->file);
@@ -386,7 +386,7 @@ void __nvc_file_canseek(jit_scalar_t *args)
    file_handle_t *handle = args[1].pointer;
 
    file_slot_t *slot = decode_handle(*handle);
-   if (slot->file == NULL)
+   if (slot == NULL)
       jit_msg(NULL, DIAG_FATAL, "FILE_CANSEEK called on closed file");
 
    args[0].integer = fseek(slot->file, 0, SEEK_CUR) == 0;
-- 
2.43.0


From 9d5773b847f66414553473db9013cbe430328400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 64/80] fix: instance names inside if-generate statements were
 garbage

---
 src/elab.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elab.c b/src/elab.c
index 577cee6..3cc76b3 100644
--- a/src/elab.c
+++ b/src/elab.c
@@ -1881,7 +1881,7 @@ static void elab_if_generate(tree_t t, const elab_ctx_t *ctx)
          tree_add_stmt(ctx->out, b);
 
          ident_t name = tree_ident(cond);
-         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", name);
+         ident_t ninst = hpathf(ctx->inst_name, ':', "%s", istr(name));
          ident_t ndotted = ident_prefix(ctx->dotted, name, '.');
 
          elab_ctx_t new_ctx = {
-- 
2.43.0


From 9a7be3275b46487ed1c20ecf4e422d15593900da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:42 +0000
Subject: [PATCH 65/80] fix: a condition of an if-generate statement that folds
 to true was modified in the analysed unit

---
 src/simp.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/simp.c b/src/simp.c
index b695c9c..b00467b 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -1334,7 +1334,23 @@ static tree_t simp_if_generate(tree_t t)
       }
       else if (bval) {
          if (new != NULL && tree_conds(new) > 0) {
-            tree_set_value(c, NULL);
+            if (tree_has_value(c)) {
+               // May be shared with the analysed unit: do not modify it
+               tree_t c2 = tree_new(T_COND_STMT);
+               tree_set_loc(c2, tree_loc(c));
+               tree_set_ident(c2, tree_ident(c));
+
+               const int ndecls = tree_decls(c);
+               for (int j = 0; j < ndecls; j++)
+                  tree_add_decl(c2, tree_decl(c, j));
+
+               const int nstmts = tree_stmts(c);
+               for (int j = 0; j < nstmts; j++)
+                  tree_add_stmt(c2, tree_stmt(c, j));
+
+               c = c2;
+            }
+
             tree_add_cond(new, c);
             break;
          }
-- 
2.43.0


From 33ecf0c4b5822d5b1c9967454c090877d6b14cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 66/80] fix: arrays of arrays of integers were dumped as
 garbage

---
 src/rt/wave.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index 71766a9..d507f9b 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -190,12 +190,16 @@ static inline void fst_write_binary(uint64_t val, size_t size, char *buf)
 
 static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val[data->count];
-   signal_expand(data->signal, val, data->count);
+   // Each handle is one element or an array of elements
+   const size_t esize = data->type->size;
+   const size_t nelems = esize > 0 ? data->size / esize : 0;
+   uint64_t val[data->count * nelems];
+   signal_expand(data->signal, val, data->count * nelems);
 
    for (int i = 0; i < data->count; i++) {
-      char buf[data->type->size + 1];
-      fst_write_binary(val[i], data->type->size, buf);
+      char buf[data->size + 1];
+      for (int j = 0; j < nelems; j++)
+         fst_write_binary(val[i * nelems + j], esize, buf + j * esize);
 
       fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i], buf);
    }
-- 
2.43.0


From b70bc69a4303f16f355d27d573db97aa738cfa8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 67/80] fix: only the first element of an array of reals or
 physical values was dumped

---
 src/rt/wave.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index d507f9b..452a151 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -207,25 +207,28 @@ static void fst_fmt_int(rt_watch_t *w, fst_data_t *data)
 
 static void fst_fmt_real(rt_watch_t *w, fst_data_t *data)
 {
-   const void *buf = signal_value(data->signal);
-   fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[0], buf);
+   const double *p = signal_value(data->signal);
+   for (int i = 0; i < data->count; i++)
+      fstWriterEmitValueChange(data->dumper->fst_ctx, data->handle[i], p + i);
 }
 
 static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
 {
-   uint64_t val;
-   signal_expand(data->signal, &val, 1);
+   uint64_t val[data->count];
+   signal_expand(data->signal, val, data->count);
 
-   fst_unit_t *unit = data->type->u.units;
-   while ((val % unit->mult) != 0)
-      ++unit;
+   for (int i = 0; i < data->count; i++) {
+      fst_unit_t *unit = data->type->u.units;
+      while ((val[i] % unit->mult) != 0)
+         ++unit;
 
-   char buf[128];
-   checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
-                   val / unit->mult, unit->name);
+      char buf[128];
+      checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
+                      val[i] / unit->mult, unit->name);
 
-   fstWriterEmitVariableLengthValueChange(
-      data->dumper->fst_ctx, data->handle[0], buf, strlen(buf));
+      fstWriterEmitVariableLengthValueChange(
+         data->dumper->fst_ctx, data->handle[i], buf, strlen(buf));
+   }
 }
 
 static void fst_fmt_chars(rt_watch_t *w, fst_data_t *data)
-- 
2.43.0


From 300479a911030bcb677a6309db02275c188b7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:59 +0000
Subject: [PATCH 68/80] fix: negative values of physical types were dumped as
 large positive values

---
 src/rt/wave.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index 452a151..b7d4754 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -68,6 +68,7 @@ typedef struct {
    enum fstVarType              vartype;
    enum fstSupplementalDataType sdt;
    unsigned                     size;
+   unsigned                     sign_shift;
    union {
       const char    *map;
       fst_unit_t    *units;
@@ -218,13 +219,17 @@ static void fst_fmt_physical(rt_watch_t *w, fst_data_t *data)
    signal_expand(data->signal, val, data->count);
 
    for (int i = 0; i < data->count; i++) {
+      // Sign extend the value if the type has negative values
+      const int shift = data->type->sign_shift;
+      const int64_t sval = (int64_t)(val[i] << shift) >> shift;
+
       fst_unit_t *unit = data->type->u.units;
-      while ((val[i] % unit->mult) != 0)
+      while ((sval % unit->mult) != 0)
          ++unit;
 
       char buf[128];
       checked_sprintf(buf, sizeof(buf), "%"PRIi64" %s",
-                      val[i] / unit->mult, unit->name);
+                      sval / unit->mult, unit->name);
 
       fstWriterEmitVariableLengthValueChange(
          data->dumper->fst_ctx, data->handle[i], buf, strlen(buf));
@@ -430,6 +435,13 @@ static fst_type_t *fst_type_for(wave_dumper_t *wd, type_t type,
       ft->size    = 0;
       ft->u.units = fst_make_unit_map(type);
       ft->fn      = fst_fmt_physical;
+      {
+         int64_t low, high;
+         range_bounds(range_of(type, 0), &low, &high);
+
+         if (low < 0)
+            ft->sign_shift = 64 - bits_for_range(low, high);
+      }
       break;
 
    case T_ARRAY:
-- 
2.43.0


From 2bdccd658402df6c03c7f2d3cde68e6069adba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:55 +0000
Subject: [PATCH 69/80] fix: the wildcard of a glob did not match zero
 characters

---
 src/ident.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ident.c b/src/ident.c
index 0126740..6335e8a 100644
--- a/src/ident.c
+++ b/src/ident.c
@@ -624,13 +624,13 @@ int ident_compare(ident_t a, ident_t b)
 
 static bool ident_glob_walk(const char *str, const char *g)
 {
-   if (*str == '\0')
+   if (*g == '*')
+      return ident_glob_walk(str, g + 1)
+         || (*str != '\0' && ident_glob_walk(str + 1, g));
+   else if (*str == '\0')
       return *g == '\0';
    else if (*g == '\0')
       return false;
-   else if (*g == '*')
-      return ident_glob_walk(str + 1, g)
-         || ident_glob_walk(str + 1, g + 1);
    else if (*str == *g)
       return ident_glob_walk(str + 1, g + 1);
    else
-- 
2.43.0


From 45c34da996b25c3c45f7a0963a7f1e40acc58997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:26 +0000
Subject: [PATCH 70/80] fix: character literals were dumped in lower case

---
 src/rt/wave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt/wave.c b/src/rt/wave.c
index b7d4754..49f076b 100644
--- a/src/rt/wave.c
+++ b/src/rt/wave.c
@@ -422,6 +422,8 @@ static fst_type_t *fst_type_for(wave_dumper_t *wd, type_t type,
          for (int i = 0; i < nlits; i++) {
             char *p = ft->u.literals.strings + i*maxsize;
             strncpy(p, istr(tree_ident(type_enum_literal(type, i))), maxsize);
+            if (*p == '\'')
+               continue;   // Case is significant in character literals
             for (; *p; p++)
                *p = tolower_iso88591(*p);
          }
-- 
2.43.0


From 6a69ac85b340bd24325146c0909a72fbc0498eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:10 +0000
Subject: [PATCH 71/80] fix: aggregate with choices that are not literals lost
 the direction of its context

---
 src/names.c | 31 ++++++++++++++++++++++++++++++-
 src/simp.c  | 18 +++++++++++++++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/names.c b/src/names.c
index 985a4e0..0fc145e 100644
--- a/src/names.c
+++ b/src/names.c
@@ -4593,6 +4593,28 @@ static type_t solve_record_aggregate(nametab_t *tab, tree_t agg, type_t type)
    return type;
 }
 
+static bool all_choices_folded(tree_t agg)
+{
+   const int nassocs = tree_assocs(agg);
+   for (int i = 0; i < nassocs; i++) {
+      tree_t a = tree_assoc(agg, i);
+      int64_t low, high;
+      switch (tree_subkind(a)) {
+      case A_NAMED:
+         if (!folded_int(tree_name(a), &low))
+            return false;
+         break;
+      case A_RANGE:
+      case A_SLICE:
+         if (!folded_bounds(tree_range(a, 0), &low, &high))
+            return false;
+         break;
+      }
+   }
+
+   return true;
+}
+
 static type_t solve_array_aggregate(nametab_t *tab, tree_t agg, type_t type)
 {
    // All elements must be of the composite base type if this is a
@@ -4713,7 +4735,14 @@ static type_t solve_array_aggregate(nametab_t *tab, tree_t agg, type_t type)
       return type;
 
    type_t sub = calculate_aggregate_subtype(agg);
-   if (sub == NULL) {
+   if (sub == NULL && !type_is_unconstrained(type) && nassocs > 1
+       && !all_choices_folded(agg)) {
+      // The choices are locally static but have not been folded yet so
+      // keep the context type as it determines the index direction: the
+      // bounds will be calculated by the simplification pass
+      return type;
+   }
+   else if (sub == NULL) {
       sub = type_new(T_SUBTYPE);
       type_set_base(sub, type_base_recur(type));
       type_set_elem(sub, type_elem(type));
diff --git a/src/simp.c b/src/simp.c
index b00467b..3fa23f4 100644
--- a/src/simp.c
+++ b/src/simp.c
@@ -1616,7 +1616,23 @@ static tree_t simp_cond_value(tree_t t)
 static tree_t simp_aggregate(tree_t t)
 {
    type_t type = tree_type(t);
-   if (type_is_array(type) && type_is_unconstrained(type)) {
+   if (!type_is_array(type))
+      return t;
+
+   bool bounds_from_context = !type_is_unconstrained(type);
+   if (bounds_from_context && is_anonymous_subtype(type)) {
+      // The choices may not have been folded when the type was solved
+      bounds_from_context = false;
+
+      const int nassocs = tree_assocs(t);
+      for (int i = 0; i < nassocs; i++) {
+         const assoc_kind_t kind = tree_subkind(tree_assoc(t, i));
+         if (kind == A_OTHERS || kind == A_POS || kind == A_CONCAT)
+            bounds_from_context = true;
+      }
+   }
+
+   if (!bounds_from_context) {
       type_t sub = calculate_aggregate_subtype(t);
       if (sub != NULL)
          tree_set_type(t, sub);
-- 
2.43.0


From 3713f0cc84eda78f9da5a0eedf8ea1fb6695a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 72/80] fix: PSL guards were merged, negated and accepted
 incorrectly

Compound guards were compared with themselves, could not be negated, and an
unconditionally accepting state became conditional on another guard.
---
 src/psl/psl-fsm.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 69539bb..f9c1de1 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -68,7 +68,7 @@ static bool same_guard(psl_guard_t g1, psl_guard_t g2)
       return false;
 
    const guard_binop_t *bop1 = psl_guard_binop(g1);
-   const guard_binop_t *bop2 = psl_guard_binop(g1);
+   const guard_binop_t *bop2 = psl_guard_binop(g2);
 
    if (bop1->kind != bop2->kind)
       return false;
@@ -136,12 +136,34 @@ static inline psl_guard_t and_guard(psl_fsm_t *fsm, psl_guard_t left,
    return make_binop_guard(fsm, BINOP_AND, left, right);
 }
 
-static psl_guard_t not_guard(psl_guard_t g)
+static psl_guard_t not_guard(psl_fsm_t *fsm, psl_guard_t g)
 {
-   assert(psl_guard_kind(g) == GUARD_EXPR);
-
-   psl_node_t p = psl_guard_expr(g);
-   return tag_pointer(p, p == NULL ? GUARD_FALSE : GUARD_NOT);
+   switch (psl_guard_kind(g)) {
+   case GUARD_EXPR:
+      {
+         psl_node_t p = psl_guard_expr(g);
+         return tag_pointer(p, p == NULL ? GUARD_FALSE : GUARD_NOT);
+      }
+   case GUARD_NOT:
+      return tag_pointer(psl_guard_expr(g), GUARD_EXPR);
+   case GUARD_BINOP:
+      {
+         const guard_binop_t *bop = psl_guard_binop(g);
+         psl_guard_t left = not_guard(fsm, bop->left);
+         psl_guard_t right = not_guard(fsm, bop->right);
+
+         if (bop->kind == BINOP_OR)
+            return and_guard(fsm, left, right);
+         else if (left == NULL || right == NULL)
+            return NULL;
+         else
+            return or_guard(fsm, left, right);
+      }
+   case GUARD_FALSE:
+      return NULL;
+   default:
+      should_not_reach_here();
+   }
 }
 
 static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
@@ -149,7 +171,7 @@ static psl_guard_t build_else_guard(psl_fsm_t *fsm, fsm_state_t *state)
    psl_guard_t g = NULL;
 
    for (fsm_edge_t *e = state->edges; e; e = e->next)
-      g = and_guard(fsm, g, not_guard(e->guard));
+      g = and_guard(fsm, g, not_guard(fsm, e->guard));
 
    return g;
 }
@@ -693,7 +715,12 @@ static void psl_simplify_dfs(psl_fsm_t *fsm, fsm_state_t *state,
 
          if (e->dest->accept) {
             psl_guard_t guard = and_guard(fsm, e->guard, e->dest->guard);
-            state->guard = or_guard(fsm, state->guard, guard);
+            if (!state->accept)
+               state->guard = guard;
+            else if (state->guard != NULL && guard != NULL)
+               state->guard = or_guard(fsm, state->guard, guard);
+            else
+               state->guard = NULL;   // Accepts unconditionally
             state->accept = true;
          }
 
-- 
2.43.0


From c6be49355b84dbb2c6951874a06d62083700c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 73/80] fix: PSL until operators continued after the
 terminating condition

---
 src/psl/psl-fsm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index f9c1de1..44d2302 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -343,14 +343,14 @@ static fsm_state_t *build_until(psl_fsm_t *fsm, fsm_state_t *state,
       add_edge(fsm, state, test, EDGE_EPSILON, lhs);
 
       fsm_state_t *new = add_state(fsm, p);
-      add_edge(fsm, test, new, EDGE_NEXT, rhs);
+      add_edge(fsm, test, new, EDGE_EPSILON, rhs);
       add_edge(fsm, test, state, EDGE_NEXT, NULL);
 
       return new;
    }
    else {
       fsm_state_t *new = add_state(fsm, p);
-      add_edge(fsm, state, new, EDGE_NEXT, rhs);
+      add_edge(fsm, state, new, EDGE_EPSILON, rhs);
       add_edge(fsm, state, state, EDGE_NEXT, lhs);
 
       return new;
-- 
2.43.0


From c15266b35355393ca5d6da5c8d44cc25334ce9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 74/80] fix: PSL before operators never failed

---
 src/psl/psl-fsm.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index 44d2302..f8ca382 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -573,22 +573,25 @@ static fsm_state_t *build_eventually(psl_fsm_t *fsm, fsm_state_t *state,
 static fsm_state_t *build_before(psl_fsm_t *fsm, fsm_state_t *state,
                                  psl_node_t p)
 {
+   fsm_state_t *wait = add_state(fsm, p);
    fsm_state_t *accept = add_state(fsm, p);
-   fsm_state_t *fail = add_state(fsm, p);
 
-   state->strong = !!(psl_flags(p) & PSL_F_STRONG);
+   add_edge(fsm, state, wait, EDGE_EPSILON, NULL);
+   wait->strong = !!(psl_flags(p) & PSL_F_STRONG);
+
+   psl_guard_t not_rhs = not_guard(fsm, psl_operand(p, 1));
 
    if (psl_flags(p) & PSL_F_INCLUSIVE) {
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
+      add_edge(fsm, wait, accept, EDGE_EPSILON, psl_operand(p, 0));
+      add_edge(fsm, wait, wait, EDGE_NEXT, not_rhs);
    }
    else {
-      add_edge(fsm, state, fail, EDGE_EPSILON, psl_operand(p, 1));
-      add_edge(fsm, state, accept, EDGE_EPSILON, psl_operand(p, 0));
+      fsm_state_t *test = add_state(fsm, p);
+      add_edge(fsm, wait, test, EDGE_EPSILON, not_rhs);
+      add_edge(fsm, test, accept, EDGE_EPSILON, psl_operand(p, 0));
+      add_edge(fsm, test, wait, EDGE_NEXT, NULL);
    }
 
-   add_edge(fsm, state, state, EDGE_NEXT, NULL);
-
    return accept;
 }
 
-- 
2.43.0


From 352fc01c11342ab96aade1f4ad17d3c004619d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 75/80] fix: PSL or with a temporal operand evaluated the
 Boolean in later cycles

---
 src/psl/psl-fsm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index f8ca382..befc886 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -311,18 +311,22 @@ static fsm_state_t *build_logical(psl_fsm_t *fsm, fsm_state_t *state,
 
    case PSL_LOGIC_OR:
       {
-         fsm_state_t *accept = add_state(fsm, p), *final;
+         fsm_state_t *accept = add_state(fsm, p);
+         fsm_state_t *right = add_state(fsm, p), *final;
 
          // At least one operand must be Boolean
          if (psl_kind(lhs) == P_HDL_EXPR) {
             add_edge(fsm, state, accept, EDGE_EPSILON, lhs);
-            final = build_node(fsm, state, rhs);
+            final = build_node(fsm, right, rhs);
          }
          else {
             add_edge(fsm, state, accept, EDGE_EPSILON, rhs);
-            final = build_node(fsm, state, lhs);
+            final = build_node(fsm, right, lhs);
          }
 
+         psl_guard_t def = build_else_guard(fsm, state);
+         add_edge(fsm, state, right, EDGE_EPSILON, def);
+
          add_edge(fsm, final, accept, EDGE_EPSILON, NULL);
          return accept;
       }
-- 
2.43.0


From c8b403220b1eb17ad31d3ceea65a4cfbd20363ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 76/80] fix: PSL cover directives missed longer matches of a
 sequence

---
 src/psl/psl-fsm.c   |  2 +-
 src/psl/psl-lower.c | 11 +++++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/psl/psl-fsm.c b/src/psl/psl-fsm.c
index befc886..e61139f 100644
--- a/src/psl/psl-fsm.c
+++ b/src/psl/psl-fsm.c
@@ -778,7 +778,7 @@ static void psl_prune_dfs(psl_fsm_t *fsm, fsm_state_t *state,
    *fsm->tail = state;
    fsm->tail = &(state->next);
 
-   if (state->accept && state->guard == NULL)
+   if (state->accept && state->guard == NULL && fsm->kind != FSM_COVER)
       state->edges = NULL;   // Unreachable
 
    for (fsm_edge_t *e = state->edges; e; e = e->next) {
diff --git a/src/psl/psl-lower.c b/src/psl/psl-lower.c
index 74339c1..23212bb 100644
--- a/src/psl/psl-lower.c
+++ b/src/psl/psl-lower.c
@@ -184,12 +184,15 @@ static void psl_lower_state(lower_unit_t *lu, psl_fsm_t *fsm,
                      VCODE_INVALID_REG);
       }
 
-      emit_return(VCODE_INVALID_REG);
+      if (fsm->kind != FSM_COVER)
+         emit_return(VCODE_INVALID_REG);
+      else if (state->guard != NULL)
+         emit_jump(cont_bb);   // Longer matches are also covered
 
-      if (state->guard == NULL)
-         return;
-      else
+      if (state->guard != NULL)
          vcode_select_block(cont_bb);
+      else if (fsm->kind != FSM_COVER)
+         return;
    }
 
    vcode_reg_t taken_reg = vfalse;
-- 
2.43.0


From adc0dc85019bc1f2333bc312806ee303ea52855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 77/80] fix: repetitions were not accepted as PSL sequences

---
 src/psl/psl-sem.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psl/psl-sem.c b/src/psl/psl-sem.c
index 67deafc..cafa977 100644
--- a/src/psl/psl-sem.c
+++ b/src/psl/psl-sem.c
@@ -139,7 +139,7 @@ static void psl_check_never(psl_node_t p, nametab_t *tab)
    psl_check(value, tab);
 
    const psl_kind_t kind = psl_kind(value);
-   if (kind != P_HDL_EXPR && kind != P_SERE)
+   if (kind != P_HDL_EXPR && kind != P_SERE && kind != P_REPEAT)
       error_at(psl_loc(p), "property is not in the simple subset as the "
                "operand of never is not a Boolean or Sequence");
 }
@@ -150,7 +150,7 @@ static void psl_check_eventually(psl_node_t p, nametab_t *tab)
    psl_check(value, tab);
 
    const psl_kind_t kind = psl_kind(value);
-   if (kind != P_HDL_EXPR && kind != P_SERE)
+   if (kind != P_HDL_EXPR && kind != P_SERE && kind != P_REPEAT)
       error_at(psl_loc(p), "property is not in the simple subset as the "
                "operand of eventually! is not a Boolean or Sequence");
 }
@@ -422,7 +422,7 @@ static void psl_check_suffix_impl(psl_node_t p, nametab_t *tab)
    psl_check(left, tab);
 
    const psl_kind_t lkind = psl_kind(left);
-   if (lkind != P_HDL_EXPR && lkind != P_SERE)
+   if (lkind != P_HDL_EXPR && lkind != P_SERE && lkind != P_REPEAT)
       error_at(psl_loc(left), "left hand side of suffix implication operator "
                "must be a Sequence");
 
-- 
2.43.0


From ee0c047933d23334de35637fc2fb545522fc2b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 78/80] fix: crash with prev in a strong PSL property pending
 at the end

---
 src/rt/model.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/rt/model.c b/src/rt/model.c
index 3f5471d..22eb974 100644
--- a/src/rt/model.c
+++ b/src/rt/model.c
@@ -3488,6 +3488,9 @@ static void check_liveness_properties(rt_model_t *m, rt_scope_t *s)
       if (p->strong) {
          TRACE("property %s in strong state", istr(p->name));
 
+         thread->active_obj = &(p->wakeable);
+         thread->active_scope = p->scope;
+
          // Passing an invalid state triggers the assertion failure
          jit_scalar_t args[] = {
             { .pointer = *mptr_get(p->privdata) ?: (void *)-1 },
@@ -3496,6 +3499,9 @@ static void check_liveness_properties(rt_model_t *m, rt_scope_t *s)
          };
          jit_vfastcall(m->jit, p->handle, args, ARRAY_LEN(args),
                        NULL, 0, thread->tlab);
+
+         thread->active_obj = NULL;
+         thread->active_scope = NULL;
       }
    }
 
-- 
2.43.0


From cf1c80fa9a0e142c6ebefb100dc3d40927d4e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 79/80] fix: names from use clauses were not hidden by direct
 declarations

A potentially visible subprogram or enumeration literal is not made directly
visible within the immediate scope of a homograph (LRM 08 section 12.4).
---
 src/names.c | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/names.c b/src/names.c
index 0fc145e..63f45a0 100644
--- a/src/names.c
+++ b/src/names.c
@@ -913,6 +913,29 @@ static void warn_hidden_decl(scope_t *s, decl_t *outer, tree_t inner)
    diag_emit(d);
 }
 
+static bool is_hidden_by(scope_t *s, const decl_t *dd, name_mask_t mask,
+                         type_t type)
+{
+   // True if a potentially visible declaration with this mask and type
+   // is hidden by the earlier declaration dd
+
+   if (dd->visibility == DIRECT)
+      return true;
+   else if (dd->visibility != OVERLOAD || (dd->mask & N_PREDEF))
+      return false;
+
+   scope_t *it = s;
+   for (; it != NULL && it != dd->origin; it = it->parent);
+
+   if (it == NULL)
+      return false;   // Only visible through a use clause
+   else if (!(mask & N_OVERLOAD))
+      return true;
+
+   type_t other = get_type_or_null(dd->tree);
+   return type != NULL && other != NULL && type_eq(type, other);
+}
+
 static symbol_t *make_visible(scope_t *s, ident_t name, tree_t decl,
                               visibility_t kind, scope_t *origin)
 {
@@ -971,8 +994,12 @@ static symbol_t *make_visible(scope_t *s, ident_t name, tree_t decl,
 
          dd->visibility = HIDDEN;
       }
-      else if (!overload && kind == POTENTIAL && dd->visibility == DIRECT)
+      else if (kind == POTENTIAL && is_hidden_by(s, dd, mask, type)) {
+         // LRM 08 section 12.4: a potentially visible declaration is not
+         // made directly visible if the place considered is within the
+         // immediate scope of a homograph of the declaration
          kind = HIDDEN;
+      }
       else if (dd->origin == origin && (dd->mask & mask & N_SUBPROGRAM)
                && (dd->mask & N_PREDEF) && type_eq(tree_type(dd->tree), type)) {
          // Allow pre-defined operators be to hidden by user-defined
@@ -1052,7 +1079,7 @@ static symbol_t *make_visible(scope_t *s, ident_t name, tree_t decl,
 
    *add_decl(sym) = (decl_t) {
       .tree       = decl,
-      .visibility = overload ? OVERLOAD : kind,
+      .visibility = overload && kind != HIDDEN ? OVERLOAD : kind,
       .origin     = origin,
       .mask       = mask,
       .kind       = tkind,
-- 
2.43.0


From 9ab6f418914742aa6c06f533cbae85d9cd228524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:28 +0000
Subject: [PATCH 80/80] fix: expanded names of later declarations in an open
 region

The cached names of a region were not updated with the declarations that
followed the first expanded name.
---
 src/names.c | 55 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/names.c b/src/names.c
index 63f45a0..ba0f270 100644
--- a/src/names.c
+++ b/src/names.c
@@ -171,6 +171,7 @@ typedef struct _scope {
    defer_checks_t  deferred;
    unsigned        tabsz;
    unsigned        tabcount;
+   unsigned        ndecls;
    symbol_t      **symtab;
    symbol_t       *inlinetab[];
 } scope_t;
@@ -1272,6 +1273,30 @@ static scope_t *scope_for_type(nametab_t *tab, type_t type)
    return (tab->globals = s);
 }
 
+static void insert_private_decls(scope_t *s, tree_t unit)
+{
+   // For package instances do not export the names declared only in
+   // the body
+   const int ndecls = tree_kind(unit) == T_PACK_INST && tree_has_ref(unit)
+      ? tree_decls(tree_ref(unit))
+      : tree_decls(unit);
+
+   grow_symbol_table(s, ndecls);
+
+   for (; s->ndecls < ndecls; s->ndecls++) {
+      tree_t d = tree_decl(unit, s->ndecls);
+      const tree_kind_t dkind = tree_kind(d);
+      if (dkind == T_ALIAS || dkind == T_TYPE_DECL) {
+         // Handle special cases: an alias may make the same
+         // enumeration literal visible multiple times and a type
+         // declaration may hide an earlier incomplete type
+         make_visible_slow(s, tree_ident(d), d);
+      }
+      else if (dkind != T_USE)
+         make_visible_fast(s, tree_ident(d), d);
+   }
+}
+
 static scope_t *private_scope_for(nametab_t *tab, tree_t unit)
 {
    const tree_kind_t kind = tree_kind(unit);
@@ -1290,8 +1315,15 @@ static scope_t *private_scope_for(nametab_t *tab, tree_t unit)
    }
 
    scope_t *s = hash_get(cache, key);
-   if (s != NULL)
+   if (s != NULL) {
+      if (kind != T_LIBRARY) {
+         // More declarations may have been added to a region that is
+         // still being analysed
+         insert_private_decls(s, unit);
+      }
+
       return s;
+   }
 
    s = new_scope();
    s->container = unit;
@@ -1304,26 +1336,7 @@ static scope_t *private_scope_for(nametab_t *tab, tree_t unit)
    if (kind == T_LIBRARY)
       make_library_visible(s, lib);
    else {
-      // For package instances do not export the names declared only in
-      // the body
-      const int ndecls = kind == T_PACK_INST && tree_has_ref(unit)
-         ? tree_decls(tree_ref(unit))
-         : tree_decls(unit);
-
-      grow_symbol_table(s, ndecls);
-
-      for (int i = 0; i < ndecls; i++) {
-         tree_t d = tree_decl(unit, i);
-         const tree_kind_t dkind = tree_kind(d);
-         if (dkind == T_ALIAS || dkind == T_TYPE_DECL) {
-            // Handle special cases: an alias may make the same
-            // enumeration literal visible multiple times and a type
-            // declaration may hide an earlier incomplete type
-            make_visible_slow(s, tree_ident(d), d);
-         }
-         else if (dkind != T_USE)
-            make_visible_fast(s, tree_ident(d), d);
-      }
+      insert_private_decls(s, unit);
 
       switch (kind) {
       case T_ENTITY:
-- 
2.43.0

