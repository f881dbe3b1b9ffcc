#!/usr/bin/env python3
# writes MANIFEST.json; run by hand
import json
T = {
 'C01': ('explicit-state model checking of the real objects', 'Every operation history of the given alphabets and lengths (search runs to a fixpoint, so any depth and any number of wrap-arounds) against a reference queue; long buffers by exhaustive window products.'),
 'C02': ('stateless model checking, C11 memory model', 'All schedules and all reads-from choices of the listed 2- and 3-thread programs over len 2..4; per-thread operation count is bounded.'),
 'C03': ('stateless model checking, C11 memory model, with race detection', 'All schedules and reads-from choices of the listed programs; happens-before races on slot bytes and overlapping grants are checked on each.'),
 'C04': ('explicit-state + stateless model checking', 'Fixpoint over all histories for small lengths; positions checked on every state; concurrent programs exhaustively. One known finding (detached producer reset_index).'),
 'C05': ('explicit-state + stateless model checking', 'Every request size 0..len+1 at every reachable state; refused requests compared bit by bit with the image before; concurrent programs for over-reporting.'),
 'C06': ('explicit-state model checking + exhaustive window products', 'Addresses, lengths and contents of every slice at every (len, index, count) in bounds.'),
 'C07': ('explicit-state + stateless model checking', 'All drop orders at every reachable state; all interleavings/reads-from of concurrent drops with use-after-free, double free, leak and dead-peer-view checks.'),
 'C08': ('explicit-state model checking with a destructor ledger', 'Every history with every value accounted for individually, closed by dropping everything at any point.'),
 'C09': ('explicit-state model checking', 'Every pattern of empty/occupied slots reachable in bounds; zeroed buffers in lock-step with initialised ones.'),
 'C10': ('stateless model checking with own-step bound', 'Bound on own steps of every call under every schedule, incl. peers frozen; weak-memory and sequentially consistent runs; drain after join.'),
 'C11': ('explicit-state + stateless model checking', 'Histories containing reset_index at any point, any cached availability, to a fixpoint.'),
 'C12': ('explicit-state + stateless model checking', 'Histories with detached iterators moving anywhere inside their window, to a fixpoint.'),
 'C13': ('lock-step product of all variants', 'One joint state space; return values, items, availabilities, indices and flags of all variants compared on each transition.'),
 'C14': ('explicit-state model checking of futures', 'Futures created, polled, dropped in every reachable state; polled form in lock-step with the synchronous form.'),
 'C15': ('explicit-state + stateless model checking with a wake-driven executor', 'Every pending future in every reachable state; lost wake-ups under all interleavings; known repair: the future wakes itself.'),
 'C16': ('enumeration of the typestate graph, each state decided by the compiler', 'Every type reachable through the safe API from every split of every buffer for seven item classes; rustc decides Send/Sync of each.'),
 'C17': ('explicit-state model checking of the vmem build + exhaustive window products', 'Whole state-space search with tiny pages, real pages for 1..16 byte elements and 1..3 pages around the seam.'),
 'C18': ('explicit-state model checking + exhaustive constructor product', 'Lengths 0..64 for every constructor; every first session followed by a re-split.'),
}
A = ' Trusted: the harness, its runtime (which replaces the sanitizer runtime and sees every access, atomic and allocation of the crate), rustc/LLVM. Bounds are in the evidence file.'
json.dump({'version': 1, 'setup_cmd': './check.py setup', 'checks': [
  {'property': p, 'quick_cmd': f'./check.py {p} quick', 'thorough_cmd': f'./check.py {p} thorough', 'technique': t, 'level': 'model_checking', 'level_note': n + A} for p, (t, n) in T.items()],
  'not_applicable': [], 'notes': 'No hooks in /repo: the crate is compiled with compiler-inserted access callbacks (-Zsanitizer=thread) linked to our own runtime. See DESIGN.md.'}, open('MANIFEST.json', 'w'), indent=1)
