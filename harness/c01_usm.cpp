// C01: state machine engine + transition-table macros, all small tables x all result histories.
#include "vc.h"
#include <avoidance/usm.h>
using usm::Transition;
static const Transition ALL[6] = {Transition::REPEAT, Transition::NEXT1, Transition::NEXT2, Transition::NEXT3, Transition::NEXT4, Transition::ERROR};
enum class S { A, B, C };

// ---------- engine with a run-time table ----------
struct Engine : usm::StateMachine<S> {
  Engine(S s) : usm::StateMachine<S>(s) {}
  Transition next_result = Transition::REPEAT;
  int runs = 0, chooses = 0;
  S seen_state = S::A, choose_from = S::A;
  Transition choose_t = Transition::REPEAT;
  const S (*table)[6] = nullptr;
  Transition runCurrentState() override { ++runs; seen_state = getState(); return next_result; }
  S chooseNextState(S cur, Transition t) override { ++chooses; choose_from = cur; choose_t = t; return table[(int)cur][(int)t]; }
};

static void engine(int nstates, const S table[3][6], int depth) {
  auto& c = vc::ctx();
  for (int start = 0; start < nstates; start++) {
    // all result sequences of the given depth; iterative odometer
    std::vector<int> seq(depth, 0);
    while (true) {
      Engine m((S)start);
      m.table = table;
      S ref = (S)start;
      bool bad = m.getState() != ref;
      for (int i = 0; i < depth && !bad; i++) {
        m.next_result = ALL[seq[i]];
        int r0 = m.runs, c0 = m.chooses;
        m.iterateOnce();
        c.transitions++;
        if (m.runs != r0 + 1 || m.seen_state != ref) bad = true;
        if (seq[i] == 0) { if (m.chooses != c0) bad = true; }
        else {
          if (m.chooses < c0 + 1 || m.choose_from != ref || m.choose_t != ALL[seq[i]]) bad = true;
          ref = table[(int)ref][seq[i]];
        }
        if (m.getState() != ref) bad = true;
        if (bad) {
          std::string s; for (int k = 0; k <= i; k++) s += std::to_string(seq[k]) + " ";
          vc::fail("engine", "start state %d, results %s: state is %d, expected %d (behaviour ran %d times, in state %d)", start, s.c_str(), (int)m.getState(), (int)ref, m.runs - r0, (int)m.seen_state);
        }
        vc::outcome(vc::mix((uint64_t)ref, i));
      }
      c.traces++;
      int k = depth - 1;
      while (k >= 0 && ++seq[k] == 6) seq[k--] = 0;
      if (k < 0) break;
    }
  }
}

// ---------- table macros ----------
// I encodes, for 2 states x 3 results (NEXT1, NEXT2, ERROR): 0 = mapped to A, 1 = mapped to B, 2 = not in the table;
// bit for the error state; whether the second row is present at all.
constexpr int p3(int k) { return k == 0 ? 1 : 3 * p3(k - 1); }
constexpr int digit(int I, int row, int col) { return (I / p3(row * 3 + col)) % 3; }
constexpr Transition TR[3] = {Transition::NEXT1, Transition::NEXT2, Transition::ERROR};
template <int I, int ROW, int COL> struct E {
  static constexpr bool mapped = digit(I, ROW, COL) != 2;
  static constexpr Transition t = mapped ? TR[COL] : (Transition)(100 + COL);  // a result that never occurs
  static constexpr S n = digit(I, ROW, COL) == 0 ? S::A : S::B;
};
// clang-format off
template <int I, int ERR>
S macroTable(S state, Transition transition) {
  USM_TABLE(state, (S)ERR,
    USM_STATE(transition, S::A, USM_MAP((E<I,0,0>::t), (E<I,0,0>::n)); USM_MAP((E<I,0,1>::t), (E<I,0,1>::n)); USM_MAP((E<I,0,2>::t), (E<I,0,2>::n)));
    USM_STATE(transition, S::B, USM_MAP((E<I,1,0>::t), (E<I,1,0>::n)); USM_MAP((E<I,1,1>::t), (E<I,1,1>::n)); USM_MAP((E<I,1,2>::t), (E<I,1,2>::n))));
}
// clang-format on
typedef S (*Fn)(S, Transition);
template <size_t... I> static void fill(std::vector<Fn>& v, std::index_sequence<I...>) {
  Fn a[] = {&macroTable<(int)I, 0>...}; Fn b[] = {&macroTable<(int)I, 1>...}; Fn d[] = {&macroTable<(int)I, 2>...};
  for (size_t i = 0; i < sizeof...(I); i++) { v.push_back(a[i]); v.push_back(b[i]); v.push_back(d[i]); }
}
static S refTable(int I, int err, S s, Transition t) {
  int row = (int)s; if (row > 1) return (S)err;
  for (int col = 0; col < 3; col++) if (TR[col] == t && digit(I, row, col) != 2) return digit(I, row, col) == 0 ? S::A : S::B;
  return (S)err;
}
// single-row and single-entry tables, and one exercising every result
static S one(S state, Transition transition) { USM_TABLE(state, S::C, USM_STATE(transition, S::B, USM_MAP(Transition::NEXT3, S::A))); }
static S wide(S state, Transition transition) {
  USM_TABLE(state, S::C, USM_STATE(transition, S::A, USM_MAP(Transition::NEXT1, S::A); USM_MAP(Transition::NEXT2, S::B); USM_MAP(Transition::NEXT3, S::C); USM_MAP(Transition::NEXT4, S::A));
            USM_STATE(transition, S::C, USM_MAP(Transition::NEXT4, S::B); USM_MAP(Transition::ERROR, S::A)));
}

int main(int argc, char** argv) {
  vc::init(argc, argv);
  auto& c = vc::ctx();
  int depth = c.thorough ? 6 : 5;
  // every 2-state table (2 states x 5 non-repeat results, each going to A or B)
  for (int bits = 0; bits < 1024; bits++) {
    if (!vc::mine(bits)) continue;
    S t[3][6];
    for (int s = 0; s < 3; s++) for (int r = 0; r < 6; r++) t[s][r] = r == 0 ? (S)s : (S)((bits >> ((s % 2) * 5 + r - 1)) & 1);
    c.states++;
    engine(2, t, depth);
  }
  // 3-state tables: every assignment of three results per state (3^9), results 1,2,5; shorter histories
  for (int I = 0; I < 19683; I++) {
    if (!vc::mine(I)) continue;
    S t[3][6]; int x = I;
    for (int s = 0; s < 3; s++) { for (int r = 0; r < 6; r++) t[s][r] = S::C; for (int r : {1, 2, 5}) { t[s][r] = (S)(x % 3); x /= 3; } }
    c.states++;
    engine(3, t, c.thorough ? 4 : 3);
  }
  if (vc::ctx().shard == 0) {
    std::vector<Fn> v; fill(v, std::make_index_sequence<729>());
    for (int I = 0; I < 729; I++) for (int e = 0; e < 3; e++) for (int s = 0; s < 3; s++) for (int r = 1; r < 6; r++) {
      S got = v[I * 3 + e]((S)s, ALL[r]), want = refTable(I, e, (S)s, ALL[r]);
      c.evals++;
      if (got != want) vc::fail("table", "table %d (error state %d): state %d on result %d goes to %d, the table says %d", I, e, s, r, (int)got, (int)want);
    }
    for (int s = 0; s < 3; s++) for (int r = 1; r < 6; r++) {
      c.evals += 2;
      S w1 = (s == 1 && r == 3) ? S::A : S::C;
      if (one((S)s, ALL[r]) != w1) vc::fail("table-single", "single-entry table: state %d on result %d goes to %d, expected %d", s, r, (int)one((S)s, ALL[r]), (int)w1);
      S w2 = S::C;
      if (s == 0) w2 = r == 1 ? S::A : r == 2 ? S::B : r == 3 ? S::C : r == 4 ? S::A : S::C;
      if (s == 2) w2 = r == 4 ? S::B : r == 5 ? S::A : S::C;
      if (wide((S)s, ALL[r]) != w2) vc::fail("table-wide", "wide table: state %d on result %d goes to %d, expected %d", s, r, (int)wide((S)s, ALL[r]), (int)w2);
    }
  }
  vc::sample("2-state table %d, all %d-step result sequences from both start states", 5, depth);
  return vc::done();
}
