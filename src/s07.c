/* S07: event lists keep all events sorted and linked, and own each exactly once */
#include "gen.h"
#define K(f) "S07:" f
void vf_setup(void) { if (sp_initialize(0, 2, 960).id) vf_error("initialize"); }
typedef struct { sp_time_t start, end; int free_calls, can_free, gone, prepared, prepare_fails; uint64_t generated_to, generated; } mark;
#define MAX 64
static mark marks[MAX]; static int count;
static mark* mark_of(sp_event_t* e) { mark* m = e->config; if (m < marks || m >= marks + count) { vf_fail(K("content"), "an event lost its configuration"); return 0; } return m; }
static void ev_free(sp_event_t* e) { mark* m = mark_of(e); if (m) m->free_calls++; }
static status_t ev_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) { status_declare; (void)out; mark* m = mark_of(e); if (m) { if (m->free_calls) vf_fail(K("freed"), "an event was generated after it was freed"); m->generated += end - start; m->generated_to = end; } status_return; }
static status_t ev_prepare(sp_event_t* e) { status_declare; mark* m = mark_of(e); if (m) { m->prepared++; if (m->prepare_fails) { status.id = 55; status.group = "harness"; } } status_return; }
/* order[] holds the expected marks from head on */
static int structure(const char* w, sp_event_list_t* l, int* order, int n) {
  sp_event_list_t *p = 0, *c = l; int i = 0; vf_eval(1);
  for (; c && i < n; i++, p = c, c = c->next) {
    vf_eval(3); if (c->previous != p) { vf_fail(K("links"), "%s: the previous link of element %d of %d is wrong", w, i, n); return 0; } if (i && (c == l || c == p)) { vf_fail(K("links"), "%s: element %d of %d is linked twice", w, i, n); return 0; }
    mark* m = marks + order[i]; if (c->event.config != m) { mark* g = c->event.config; vf_fail(K("order"), "%s: element %d of %d starts at %u (event %d), expected event %d at %u", w, i, n, c->event.start, (int)(g - marks), order[i], m->start); return 0; }
    if (c->event.start != m->start || c->event.end != m->end || c->event.generate != ev_generate || c->event.free != (m->can_free ? ev_free : 0) || c->event.memory.data) { vf_fail(K("content"), "%s: element %d of %d is not the event that was added", w, i, n); return 0; }
  }
  if (c || i < n) { vf_fail(K("links"), "%s: %s elements than the %d that were added", w, c ? "more" : "less", n); return 0; } return 1;
}
static void model_insert(int* order, int* n, int id) { int i = 0; while (i < *n && marks[order[i]].start > marks[id].start) i++; for (int j = (*n)++; j > i; j--) order[j] = order[j - 1]; order[i] = id; }
static void model_reverse(int* o, int n) { for (int i = 0; i < n / 2; i++) { int t = o[i]; o[i] = o[n - 1 - i]; o[n - 1 - i] = t; } }
static void new_event(vf_rng* r, sp_event_t* e, uint64_t range) { mark* m = marks + count++; memset(m, 0, sizeof *m); m->start = (sp_time_t)vf_below(r, range); m->end = m->start + 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 5 : range > 1000 ? 1000 : range); m->can_free = vf_chance(r, .8); sp_event_reset((*e)); e->start = m->start; e->end = m->end; e->generate = ev_generate; e->config = m; if (m->can_free) e->free = ev_free; }
static void t_lists(vf_rng* r, uint64_t ix) {
  int n = (int)vf_below(r, vf_chance(r, .5) ? 6 : MAX), on = 0, order[MAX]; uint64_t range = vf_chance(r, .3) ? 3 : vf_chance(r, .5) ? 30 : 4000000000u; count = 0; char w[100]; snprintf(w, sizeof w, "list of %d events", n); uint64_t sig = range; sp_declare_event_list(l);
  vf_ledger_begin();
  for (int i = 0; i < n; i++) {
    sp_event_t e; new_event(r, &e, range); int id = count - 1, fault = vf_chance(r, .04); if (fault) vf_fault_at(0); status_t s = sp_event_list_add(&l, e); fault = fault && vf_fault_hit(); vf_fault_at(-1); sig = vf_mix(sig, marks[id].start); vf_eval(1);
    if (fault) { if (!s.id) vf_fail(K("fault"), "%s: no status after a failed allocation", w); marks[id].gone = 1; vf_count("failed allocations", 1); if (marks[id].free_calls) vf_fail(K("freed"), "%s: an event that was not added was freed", w); }
    else { if (s.id) { vf_fail(K("status"), "%s: status %d", w, s.id); break; } model_insert(order, &on, id); }
    if (!structure(w, l, order, on)) break; if (vf_chance(r, .2)) sp_event_list_validate(l);
    if (vf_chance(r, .05)) { sp_event_list_reverse(&l); model_reverse(order, on); if (!structure(w, l, order, on)) break; sp_event_list_reverse(&l); model_reverse(order, on); vf_count("reversed twice", 1); if (!structure(w, l, order, on)) break; }
  }
  sp_event_list_reverse(&l); model_reverse(order, on);
  if (structure(w, l, order, on)) {
    for (int i = 1; i < on; i++) { vf_eval(1); mark *a = marks + order[i - 1], *b = marks + order[i]; if (a->start > b->start || (a->start == b->start && a > b)) vf_fail(K("order"), "%s: prepared events are not in the order of start and addition", w); }
    if (range <= 30) { /* consumed by sequencing */
      sp_block_t out; memset(&out, 0, sizeof out); out.channel_count = 2; out.size = 200; out.samples[0] = vf_guarded(1600); out.samples[1] = vf_guarded(1600); memset(out.samples[0], 0, 1600); memset(out.samples[1], 0, 1600); sp_time_t t = (sp_time_t)vf_below(r, 3);
      while (t < 70) {
        sp_time_t to = t + 1 + (sp_time_t)vf_below(r, vf_chance(r, .5) ? 4 : 40); status_t s = sp_seq(t, to, out, &l); vf_eval(1); if (s.id) { vf_fail(K("status"), "%s: sequencing failed", w); break; }
        /* what is left: nothing that ended before the range, everything that ends after it, in the same order */
        int left[MAX], k = 0; sp_event_list_t* c = l; while (c && k < MAX) { mark* m = mark_of(&c->event); if (!m) break; left[k++] = (int)(m - marks); c = c->next; } if (c) { vf_fail(K("links"), "%s: the list does not end", w); break; } if (!structure(w, l, left, k)) break;
        int q = 0, bad = 0; for (int i = 0; i < on && !bad; i++) { mark* m = marks + order[i]; int in = q < k && left[q] == order[i]; q += in; vf_eval(1); if (in && m->end <= t) bad = 1; if (!in && m->end > to) bad = 2; if (m->free_calls != (!in && m->can_free)) bad = 3; } if (q != k) bad = 4;
        if (bad) { vf_fail(bad == 3 ? K("freed") : K("remaining"), "%s: after sequencing %u..%u %s", w, t, to, bad == 1 ? "events are left that ended before" : bad == 2 ? "events are missing that have not ended" : bad == 3 ? "events that left the list were not freed once, or events in the list were freed" : "the order of events changed"); break; }
        sp_event_list_validate(l); vf_count("sequenced ranges", 1); t = to; if (vf_chance(r, .05)) break;
      }
      vf_guarded_free(out.samples[0]); vf_guarded_free(out.samples[1]);
    }
  }
  sp_event_list_free(&l); vf_eval((uint64_t)count + 1); if (l) vf_fail(K("freed"), "%s: not empty after freeing", w); for (int i = 0; i < count; i++) { mark* m = marks + i; if (m->free_calls != (m->can_free && !m->gone)) { vf_fail(K("freed"), "%s: event %d was freed %d times", w, i, m->free_calls); break; } }
  sp_event_list_free(&l); sp_event_list_reverse(&l); if (l) vf_fail(K("freed"), "empty list changed"); vf_ledger_end_empty(K("leak"), w); vf_sig(vf_mix(sig, (uint64_t)n)); vf_count("lists", 1); if (ix < 2) vf_sample("%s starting below %lu", w, (unsigned long)range);
}
/* macros for single events */
static status_t prepare_once(sp_event_t* p) { status_declare; sp_event_prepare_srq((*p)); exit: status_return; }
static status_t prepare_optional(sp_event_t* p) { status_declare; sp_event_prepare_optional_srq((*p)); exit: status_return; }
static void t_macros(vf_rng* r, uint64_t ix) {
  count = 0; sp_event_t e; new_event(r, &e, 1000); mark* m = marks; vf_eval(8);
  if (sp_event_duration(e) != m->end - m->start) vf_fail(K("macros"), "duration of %u..%u is %u", m->start, m->end, sp_event_duration(e)); if (&sp_event_config_get(e, mark) != m) vf_fail(K("macros"), "the configuration is not returned");
  e.prepare = ev_prepare; m->prepare_fails = vf_chance(r, .3); status_t s = vf_chance(r, .5) ? prepare_once(&e) : prepare_optional(&e); if (s.id != (m->prepare_fails ? 55 : 0) || m->prepared != 1) vf_fail(K("macros"), "preparing returned %d after %d calls", s.id, m->prepared); if (!s.id && e.prepare) vf_fail(K("macros"), "a prepared event would be prepared again");
  if (!s.id) { s = prepare_optional(&e); if (s.id || m->prepared != 1) vf_fail(K("macros"), "prepared again"); }
  sp_event_free(e); if (m->free_calls != m->can_free) vf_fail(K("macros"), "freed %d times", m->free_calls);
  sp_declare_event(d); sp_event_t zero; memset(&zero, 0, sizeof zero); if (d.start || d.end || d.generate || d.prepare || d.free || d.config || d.memory.data) vf_fail(K("macros"), "a declared event is not empty"); memset(&d, 0x77, sizeof d); sp_event_reset(d); if (d.start || d.end || d.generate || d.prepare || d.free || d.config || d.memory.data) vf_fail(K("macros"), "a reset event is not empty");
  sp_time_t len = (sp_time_t)vf_u64(r); sp_define_event(f, ev_prepare, len); if (f.start || f.end != len || f.prepare != ev_prepare || f.generate || f.free || f.config || f.memory.data) vf_fail(K("macros"), "a defined event of duration %u starts at %u and ends at %u", len, f.start, f.end);
  { sp_event_t g = f; g.prepare = 0; g.generate = ev_generate; g.config = m; sp_time_t on = (sp_time_t)vf_below(r, 1u << 30), du = vf_chance(r, .4) ? 0 : (sp_time_t)vf_below(r, 1u << 30), cfg = vf_chance(r, .5); g.end = vf_chance(r, .2) ? 0 : (sp_time_t)vf_below(r, 1u << 30); sp_event_t c = g, h = sp_event_schedule(g, on, du, cfg ? (void*)&on : 0); vf_eval(4); if (h.start != on || h.end != on + du + c.end) vf_fail(K("schedule"), "event of duration %u scheduled at %u with %u more becomes %u..%u", c.end, on, du, h.start, h.end); if (h.config != (cfg ? (void*)&on : c.config) || h.generate != c.generate) vf_fail(K("schedule"), "a scheduled event has other properties"); if (memcmp(&g, &c, sizeof g)) vf_fail(K("schedule"), "the event that was scheduled changed"); }
  vf_sig(vf_mix(len, m->start)); if (ix < 1) vf_sample("event %u..%u", m->start, m->end);
}
/* lists that are linked wrongly are reported and end the process */
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
static void on_end(int code, void* x) { (void)x; _exit(code ? 41 : 42); }
static void t_validate(vf_rng* r, uint64_t ix) {
  static char w[160]; static int hung; if (hung) return; int n = 1 + (int)vf_below(r, vf_chance(r, .5) ? 4 : 40), kind = (int)vf_below(r, 5), at = (int)vf_below(r, (uint64_t)n), to = (int)vf_below(r, (uint64_t)n); count = 0; sp_declare_event_list(l); vf_ledger_begin();
  for (int i = 0; i < n; i++) { sp_event_t e; new_event(r, &e, 30); if (sp_event_list_add(&l, e).id) { vf_fail(K("status"), "adding failed"); sp_event_list_free(&l); return; } }
  if (vf_chance(r, .5)) sp_event_list_reverse(&l);
  sp_event_list_t *el[64], *c = l; for (int i = 0; i < n; i++, c = c->next) { if (!c) { vf_fail(K("links"), "%d of %d events are in the list", i, n); return; } el[i] = c; }
  sp_event_list_t *next = el[at]->next, *previous = el[at]->previous, other; memset(&other, 0, sizeof other); int broken = 1;
  switch (kind) {
    case 0: broken = 0; snprintf(w, sizeof w, "correct list of %d", n); break;
    case 1: /* no previous element although there is one */ broken = at > 0; el[at]->previous = 0; snprintf(w, sizeof w, "list of %d, element %d has no previous element", n, at); break;
    case 2: /* another element */ el[at]->previous = vf_chance(r, .2) ? &other : el[to]; broken = el[at]->previous != previous; snprintf(w, sizeof w, "list of %d, the element previous to %d is %d", n, at, to); break;
    case 3: /* back to the same or an earlier element */ if (to > at) { int x = to; to = at; at = x; next = el[at]->next; } el[at]->next = el[to]; snprintf(w, sizeof w, "list of %d, element %d is followed by %d", n, at, to); break;
    case 4: /* an element left out in one direction */ if (at + 2 < n) el[at]->next = el[at + 2]; else broken = 0; snprintf(w, sizeof w, "list of %d, element %d is followed by %d", n, at, at + 2); break;
  }
  fflush(0); pid_t child = fork();
  if (!child) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2); on_exit(on_end, 0); alarm(5); sp_event_list_validate(l); _exit(43); }
  if (child < 0) vf_error("fork"); int ws = 0; while (waitpid(child, &ws, 0) < 0 && errno == EINTR); el[at]->next = next; if (kind < 3) el[at]->previous = previous;
  vf_eval(1);
  if (WIFSIGNALED(ws)) { hung = 1; vf_fail(K("validate"), "%s: validation ended with signal %d", w, WTERMSIG(ws)); }
  else if (!broken && WEXITSTATUS(ws) != 43) vf_fail(K("validate"), "%s: not accepted, exit code %d", w, WEXITSTATUS(ws));
  else if (broken && WEXITSTATUS(ws) == 43) vf_fail(K("validate"), "%s: accepted", w);
  else if (broken && WEXITSTATUS(ws) != 41) vf_fail(K("validate"), "%s: exit code %s", w, WEXITSTATUS(ws) == 42 ? "zero" : "unknown");
  sp_event_list_free(&l); vf_ledger_end_empty(K("leak"), w); vf_count(broken ? "broken lists" : "accepted lists", 1); vf_sig(vf_mix(vf_mix((uint64_t)n, (uint64_t)kind), vf_mix((uint64_t)at, (uint64_t)to))); if (ix < 3) vf_sample("%s", w);
}
vf_suite vf_suites[] = {{"validate", t_validate, 400, 10000}, {"lists", t_lists, 8000, 200000}, {"macros", t_macros, 4000, 50000}, {0}};
