// C05: constraint-matrix editing matches a matrix model.
#include "model.hpp"
using namespace md;
using mc::Ctx;

mc::Property property() {
  return {"C05",
          "every sequence of editing operations up to the depth bound is run on the real relation and on a plain "
          "list-of-rows matrix; after each step all fields of all union parts, all operands and the user pointer are "
          "compared; invalid positions must be rejected by an error exit",
          {"cell values are pairwise distinct labels, so a misplaced cell is always visible"}};
}

namespace {
int sentinel;

struct W {  // the working union: the real one and the model
  osl_relation_p r;
  Rel m;
};
void compare(Ctx& c, const W& w, const char* op) {
  Rel got = see(w.r);
  c.check(got == w.m, "%s: expected %s got %s", op, str(w.m).c_str(), str(got).c_str());
  if (w.r) c.check(w.r->usr == &sentinel, "%s: user pointer changed", op);
}
string plus(const string& a, const string& b, int sign) {
  return std::to_string(atoll(a.c_str()) + sign * atoll(b.c_str()));
}
// runs f on the library; ok = whether the model accepts the call. Returns false if it (rightly) died.
bool guarded(Ctx& c, bool ok, const char* op, const std::function<void()>& f) {
  bool d = mc::dies(f);
  c.check(d == !ok, ok ? "%s: valid call rejected by an error" : "%s: invalid call accepted", op);
  if (d) c.outcome(string("error ") + op);
  return !d;
}
void unchanged(Ctx& c, const Rel& m, const osl_relation_t* r, const char* op) {
  Rel g = see(r);
  c.check(g == m, "%s: source operand modified: was %s now %s", op, str(m).c_str(), str(g).c_str());
}
Part vec_part(int prec, const Row& v) {
  Part p;
  p.type = OSL_UNDEFINED; p.prec = prec; p.rows = 1; p.cols = (int)v.size();
  p.out = p.in = p.loc = p.par = OSL_UNDEFINED;
  p.m = {v};
  return p;
}
Row fresh_row(int cols, int base) {
  Row r;
  for (int j = 0; j < cols; j++) r.push_back(std::to_string(j == 0 ? base % 2 : -(base * 1000 + j)));
  return r;
}
vector<int> positions(int n, bool big) {  // candidate positions for an object of extent n
  vector<int> v;
  if (!big) { for (int i = -2; i <= n + 1; i++) v.push_back(i); }
  else {
    std::set<int> s = {-2, -1, 0, 1, n / 2, n - 2, n - 1, n, n + 1};
    v.assign(s.begin(), s.end());
  }
  return v;
}

enum Op { INS_ROW, INS_COL, INS_VEC, INS_CONS, INS_SELF, REP_VEC, REP_CONS, ADD_VEC, SUB_VEC, SWAP, REM_ROW, REM_COL, INS_COLS,
          CAT_VEC, CAT_CONS, EXT_OUT, CLONE_NC, UNION, ADD, REM_PART, SET_TYPE, SET_ATTR, FROM_VEC, NULLS, SELF, NOPS };
const char* names[] = {"insert_blank_row", "insert_blank_column", "insert_vector", "insert_constraints", "insert_constraints(self)",
                       "replace_vector", "replace_constraints", "add_vector", "sub_vector", "swap_constraints", "remove_row",
                       "remove_column", "insert_columns", "concat_vector", "concat_constraints", "extend_output",
                       "clone_nconstraints", "union", "add", "remove_part", "set_type", "set_attributes", "from_vector", "null-arguments", "both operands the same"};

// returns false when the execution ended in an (expected) library error
bool step(Ctx& c, W& w, int serial, bool big) {
  int op = c.choose(NOPS, "op");
  const char* nm = names[op];
  c.step();
  Part& p = w.m[0];
  int prec = p.prec;
  auto freshp = [&](int rows, int cols) {
    Part q = labelled(prec, rows, cols, 5000 * (serial + 1));
    q.type = OSL_TYPE_READ;
    return q;
  };
  switch (op) {
    case INS_ROW: {
      int row = c.pick(positions(p.rows, big), "row");
      c.note("%s row=%d", nm, row);
      bool ok = row >= -1 && row <= p.rows;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_blank_row(w.r, row); })) return false;
      p.m.insert(p.m.begin() + (row == -1 ? p.rows : row), Row(p.cols, "0"));
      p.rows++;
      break;
    }
    case INS_COL: {
      int col = c.pick(positions(p.cols, big), "col");
      c.note("%s col=%d", nm, col);
      bool ok = col >= 0 && col <= p.cols;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_blank_column(w.r, col); })) return false;
      for (auto& r : p.m) r.insert(r.begin() + col, "0");
      p.cols++;
      break;
    }
    case INS_VEC: {
      int dc = c.choose(big ? 1 : 3, "vector size delta") ;  // 0, +1, -1
      int n = p.cols + (dc == 2 ? -1 : dc);
      if (n < 0) { c.note("skip"); break; }
      int row = c.pick(positions(p.rows, big), "row");
      Row v = fresh_row(n, serial + 7);
      c.note("%s n=%d row=%d", nm, n, row);
      osl_vector_p x = build_vec(prec, v);
      bool ok = n == p.cols && row >= -1 && row <= p.rows;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_vector(w.r, x, row); })) return false;
      c.check(see_vec(x) == v, "%s: vector modified", nm);
      osl_vector_free(x);
      p.m.insert(p.m.begin() + (row == -1 ? p.rows : row), v);
      p.rows++;
      break;
    }
    case INS_CONS: {
      int k = big ? c.pick(vector<int>{0, 1, 17}, "k") : c.choose(3, "nb rows");
      int dc = big ? 0 : c.choose(2, "extra column");
      int row = c.pick(positions(p.rows, big), "row");
      Part q = freshp(k, p.cols + dc);
      c.note("%s k=%d dc=%d row=%d", nm, k, dc, row);
      Rel src = {q, freshp(1, p.cols)};
      osl_relation_p x = build(src);
      bool ok = dc == 0 && row >= -1 && row <= p.rows;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_constraints(w.r, x, row); })) return false;
      unchanged(c, src, x, nm);
      osl_relation_free(x);
      p.m.insert(p.m.begin() + (row == -1 ? p.rows : row), q.m.begin(), q.m.end());
      p.rows += k;
      break;
    }
    case INS_SELF: {
      int row = c.pick(positions(p.rows, big), "row");
      c.note("%s row=%d", nm, row);
      bool ok = row >= -1 && row <= p.rows;
      if (p.rows > 100) break;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_constraints(w.r, w.r, row); })) return false;
      vector<Row> copy = p.m;
      p.m.insert(p.m.begin() + (row == -1 ? p.rows : row), copy.begin(), copy.end());
      p.rows *= 2;
      break;
    }
    case REP_VEC:
    case ADD_VEC:
    case SUB_VEC: {
      int dc = c.choose(big ? 1 : 3, "vector size delta");
      int n = p.cols + (dc == 2 ? -1 : dc);
      if (n < 0) break;
      int row = c.pick(positions(p.rows, big), "row");
      Row v = fresh_row(n, serial + c.choose(2, "marker"));
      c.note("%s n=%d row=%d v=%s", nm, n, row, str(v).c_str());
      osl_vector_p x = build_vec(prec, v);
      bool ok = n == p.cols && row >= 0 && row < p.rows;
      if (ok && n == 0) { osl_vector_free(x); break; }
      if (!guarded(c, ok, nm, [&] {
            if (op == REP_VEC) osl_relation_replace_vector(w.r, x, row);
            else if (op == ADD_VEC) osl_relation_add_vector(w.r, x, row);
            else osl_relation_sub_vector(w.r, x, row);
          })) return false;
      c.check(see_vec(x) == v, "%s: vector modified", nm);
      osl_vector_free(x);
      Row& r = p.m[row];
      if (op == REP_VEC) r = v;
      else {
        // a sum with an inequality is an inequality: the marker 1 dominates
        if (r[0] == "0") r[0] = v[0];
        for (int j = 1; j < n; j++) r[j] = plus(r[j], v[j], op == ADD_VEC ? 1 : -1);
      }
      break;
    }
    case REP_CONS: {
      int k = c.choose(3, "nb rows");
      int dc = big ? 0 : c.choose(2, "extra column");
      int row = c.pick(positions(p.rows, big), "row");
      Rel src = {freshp(k, p.cols + dc)};
      c.note("%s k=%d dc=%d row=%d", nm, k, dc, row);
      osl_relation_p x = build(src);
      bool ok = dc == 0 && row >= 0 && row + k <= p.rows;
      if (!guarded(c, ok, nm, [&] { osl_relation_replace_constraints(w.r, x, row); })) return false;
      unchanged(c, src, x, nm);
      osl_relation_free(x);
      for (int i = 0; i < k; i++) p.m[row + i] = src[0].m[i];
      break;
    }
    case SWAP: {
      int a = c.pick(positions(p.rows, big), "c1"), b = c.pick(positions(p.rows, big), "c2");
      c.note("%s %d %d", nm, a, b);
      bool ok = a == b || (a >= 0 && b >= 0 && a < p.rows && b < p.rows);
      if (!guarded(c, ok, nm, [&] { osl_relation_swap_constraints(w.r, a, b); })) return false;
      if (a != b) std::swap(p.m[a], p.m[b]);
      break;
    }
    case REM_ROW: {
      int row = c.pick(positions(p.rows, big), "row");
      c.note("%s %d", nm, row);
      bool ok = row >= 0 && row < p.rows;
      if (!guarded(c, ok, nm, [&] { osl_relation_remove_row(w.r, row); })) return false;
      p.m.erase(p.m.begin() + row);
      p.rows--;
      break;
    }
    case REM_COL: {
      int col = c.pick(positions(p.cols, big), "col");
      c.note("%s %d", nm, col);
      bool ok = col >= 0 && col < p.cols;
      if (!guarded(c, ok, nm, [&] { osl_relation_remove_column(w.r, col); })) return false;
      for (auto& r : p.m) r.erase(r.begin() + col);
      p.cols--;
      break;
    }
    case INS_COLS: {
      int k = big ? c.pick(vector<int>{0, 1, 17}, "k") : c.choose(3, "nb columns");
      int dr = big ? 0 : c.choose(2, "extra row");
      int col = c.pick(positions(p.cols, big), "col");
      c.note("%s k=%d dr=%d col=%d", nm, k, dr, col);
      Rel src = {freshp(p.rows + dr, k)};
      osl_relation_p x = build(src);
      bool ok = dr == 0 && col >= 0 && col <= p.cols;
      if (!guarded(c, ok, nm, [&] { osl_relation_insert_columns(w.r, x, col); })) return false;
      unchanged(c, src, x, nm);
      osl_relation_free(x);
      for (int i = 0; i < p.rows; i++) p.m[i].insert(p.m[i].begin() + col, src[0].m[i].begin(), src[0].m[i].end());
      p.cols += k;
      break;
    }
    case CAT_VEC: {
      int dc = c.choose(big ? 1 : 2, "extra column");
      Row v = fresh_row(p.cols + dc, serial + 3);
      c.note("%s dc=%d", nm, dc);
      osl_vector_p x = build_vec(prec, v);
      osl_relation_p n = nullptr;
      if (!guarded(c, dc == 0, nm, [&] { n = osl_relation_concat_vector(w.r, x); })) return false;
      c.check(see_vec(x) == v, "%s: vector modified", nm);
      compare(c, w, nm);
      Part e = p;
      e.m.push_back(v);
      c.check(n && n->next == nullptr && n->nb_rows == p.rows + 1 && n->nb_columns == p.cols && n->precision == prec, "%s: bad shape", nm);
      c.check(see_part(n).m == e.m, "%s: expected %s got %s", nm, str(e).c_str(), text(n).c_str());
      osl_relation_free(n);
      osl_vector_free(x);
      break;
    }
    case CAT_CONS: {
      int k = big ? c.pick(vector<int>{0, 1, 17}, "k") : c.choose(3, "nb rows");
      int dc = big ? 0 : c.choose(2, "extra column");
      int swap = c.choose(2, "operand order");
      Rel src = {freshp(k, p.cols + dc), freshp(1, p.cols)};
      c.note("%s k=%d dc=%d swap=%d", nm, k, dc, swap);
      osl_relation_p x = build(src), n = nullptr;
      if (!guarded(c, dc == 0, nm, [&] { n = swap ? osl_relation_concat_constraints(x, w.r) : osl_relation_concat_constraints(w.r, x); })) return false;
      unchanged(c, src, x, nm);
      compare(c, w, nm);
      vector<Row> e = swap ? src[0].m : p.m;
      const vector<Row>& e2 = swap ? p.m : src[0].m;
      e.insert(e.end(), e2.begin(), e2.end());
      c.check(n && n->next == nullptr && n->nb_rows == p.rows + k && n->nb_columns == p.cols && n->precision == prec, "%s: bad shape", nm);
      c.check(see_part(n).m == e, "%s: wrong rows: %s", nm, text(n).c_str());
      osl_relation_free(n);
      osl_relation_free(x);
      break;
    }
    case EXT_OUT: {
      // meaningful on consistent attributes only: choose the output count
      for (auto& q : w.m) if (q.cols < 2) { c.note("skip"); return true; }
      int mincols = p.cols;
      for (auto& q : w.m) mincols = std::min(mincols, q.cols);
      vector<int> outs;
      if (big) outs = {0, mincols - 2}; else for (int o = 0; o <= mincols - 2; o++) outs.push_back(o);
      int o = c.pick(outs, "output dims");
      vector<int> dims = big ? vector<int>{o, o + 1, o + 20} : vector<int>{o - 1, o, o + 1, o + 2};
      int dim = c.pick(dims, "dim");
      int i = 0;
      for (osl_relation_p q = w.r; q; q = q->next, i++) {
        q->nb_output_dims = w.m[i].out = o;
        q->nb_input_dims = w.m[i].in = w.m[i].cols - 2 - o;
        q->nb_local_dims = w.m[i].loc = 0;
        q->nb_parameters = w.m[i].par = 0;
      }
      c.note("%s out=%d dim=%d", nm, o, dim);
      osl_relation_p n = nullptr;
      if (!guarded(c, dim >= o, nm, [&] { n = osl_relation_extend_output(w.r, dim); })) return false;
      compare(c, w, nm);
      Rel e = w.m;
      for (auto& q : e) {
        int k = dim - o;
        for (auto& r : q.m) r.insert(r.begin() + 1 + o, k, "0");
        q.cols += k;
        for (int a = 0; a < k; a++) {
          Row r(q.cols, "0");
          r[1 + o + a] = "-1";
          q.m.push_back(r);
        }
        q.rows += k;
        q.out = dim;
      }
      Rel g = see(n);
      c.check(g == e, "%s: expected %s got %s", nm, str(e).c_str(), str(g).c_str());
      osl_relation_free(w.r);
      w.r = n;
      w.r->usr = &sentinel;
      w.m = e;
      break;
    }
    case CLONE_NC: {
      int mn = p.rows;
      for (auto& q : w.m) mn = std::min(mn, q.rows);
      int n = c.pick(big ? vector<int>{-1, 0, 1, mn, mn + 1} : positions(p.rows, false), "n");
      if (n < -1) { c.note("skip"); break; }
      c.note("%s n=%d", nm, n);
      osl_relation_p x = nullptr;
      if (!guarded(c, n <= mn, nm, [&] { x = osl_relation_clone_nconstraints(w.r, n); })) return false;
      compare(c, w, nm);
      Rel e = w.m;
      if (n >= 0) for (auto& q : e) { q.m.resize(n); q.rows = n; }
      Rel g = see(x);
      c.check(g == e, "%s(%d): expected %s got %s", nm, n, str(e).c_str(), str(g).c_str());
      osl_relation_free(x);
      break;
    }
    case UNION: {
      int k = c.choose(3, "parts of r2");
      int order = c.choose(2, "order");
      if (w.m.size() > 4) break;
      Rel src;
      for (int i = 0; i < k; i++) src.push_back(freshp(i + 1, 2 + i));
      osl_relation_p x = build(src), n;
      c.note("%s k=%d order=%d", nm, k, order);
      n = order ? osl_relation_union(x, w.r) : osl_relation_union(w.r, x);
      compare(c, w, nm);
      unchanged(c, src, x, nm);
      Rel e = order ? src : w.m;
      const Rel& e2 = order ? w.m : src;
      e.insert(e.end(), e2.begin(), e2.end());
      c.check(see(n) == e, "%s: expected %s got %s", nm, str(e).c_str(), text(n).c_str());
      for (osl_relation_p a = n; a; a = a->next)
        for (osl_relation_p b = w.r; b; b = b->next) c.check(a != b && (a->m != b->m || !a->m), "%s: shares storage", nm);
      osl_relation_free(n);
      osl_relation_free(x);
      break;
    }
    case ADD: {
      int k = c.choose(3, "parts");
      if (w.m.size() > 4) break;
      Rel src;
      for (int i = 0; i < k; i++) src.push_back(freshp(i + 1, 2 + i));
      c.note("%s k=%d", nm, k);
      osl_relation_p x = build(src), last = w.r;
      while (last->next) last = last->next;
      osl_relation_p h = c.flip("onto empty") ? nullptr : w.r;
      if (!h) {
        osl_relation_add(&h, x);
        c.check(h == x, "%s: onto NULL", nm);
        osl_relation_free(x);
        break;
      }
      osl_relation_add(&h, x);
      c.check(h == w.r && last->next == x, "%s: operands are linked, not copied", nm);
      w.m.insert(w.m.end(), src.begin(), src.end());
      break;
    }
    case REM_PART: {
      int i = c.choose((int)w.m.size() + 2, "part");
      c.note("%s %d of %zu", nm, i, w.m.size());
      if (i > (int)w.m.size()) { osl_relation_remove_part(&w.r, nullptr); break; }
      if (i == (int)w.m.size()) {
        osl_relation_p foreign = build(p);
        osl_relation_remove_part(&w.r, foreign);
        osl_relation_free(foreign);
        break;
      }
      osl_relation_p q = w.r;
      for (int k = 0; k < i; k++) q = q->next;
      osl_relation_remove_part(&w.r, q);
      w.m.erase(w.m.begin() + i);
      if (w.m.empty()) { c.check(w.r == nullptr, "%s: not empty", nm); return false; }
      c.check(w.r != nullptr, "%s: emptied", nm);
      w.r->usr = &sentinel;
      break;
    }
    case SET_TYPE: {
      c.note("%s", nm);
      osl_relation_set_type(w.r, OSL_TYPE_WRITE);
      for (auto& q : w.m) q.type = OSL_TYPE_WRITE;
      break;
    }
    case SET_ATTR: {
      int one = c.choose(2, "one");
      c.note("%s one=%d", nm, one);
      if (one) osl_relation_set_attributes_one(w.r, 1, 2, 3, 4);
      else osl_relation_set_attributes(w.r, 1, 2, 3, 4);
      for (size_t i = 0; i < (one ? 1 : w.m.size()); i++) { w.m[i].out = 1; w.m[i].in = 2; w.m[i].loc = 3; w.m[i].par = 4; }
      break;
    }
    case FROM_VEC: {
      Row v = fresh_row(p.cols, serial + 2);
      osl_vector_p x = build_vec(prec, v);
      osl_relation_p n = osl_relation_from_vector(x);
      c.check(see_vec(x) == v, "%s: vector modified", nm);
      c.check(n && !n->next && n->nb_rows == 1 && n->nb_columns == p.cols && n->precision == prec && (p.cols == 0 || see_part(n).m[0] == v), "%s: got %s", nm, text(n).c_str());
      osl_relation_free(n);
      osl_vector_free(x);
      break;
    }
    case SELF: {
      int k = c.choose(5, "operation");
      c.note("%s, operation %d", nm, k);
      if (p.rows > 100 || p.cols > 100 || w.m.size() > 4) break;
      if (k == 0) {
        int row = c.pick(positions(p.rows, big), "row");
        bool ok = row == 0 || (p.rows == 0 && row == 0);
        if (!guarded(c, ok, nm, [&] { osl_relation_replace_constraints(w.r, w.r, row); })) return false;
      } else if (k == 1) {
        int col = c.pick(positions(p.cols, big), "col");
        bool ok = col >= 0 && col <= p.cols;
        if (!guarded(c, ok, nm, [&] { osl_relation_insert_columns(w.r, w.r, col); })) return false;
        for (auto& r : p.m) { Row copy = r; r.insert(r.begin() + col, copy.begin(), copy.end()); }
        p.cols *= 2;
      } else if (k == 2) {
        osl_relation_p n = osl_relation_concat_constraints(w.r, w.r);
        vector<Row> e = p.m;
        e.insert(e.end(), p.m.begin(), p.m.end());
        c.check(n && !n->next && n->nb_rows == 2 * p.rows && n->nb_columns == p.cols && see_part(n).m == e, "%s: got %s", nm, text(n).c_str());
        osl_relation_free(n);
      } else if (k == 3) {
        osl_relation_p n = osl_relation_union(w.r, w.r);
        Rel e = w.m;
        e.insert(e.end(), w.m.begin(), w.m.end());
        c.check(see(n) == e, "%s: expected %s got %s", nm, str(e).c_str(), text(n).c_str());
        osl_relation_free(n);
      } else if (p.rows > 0 && p.cols > 0) {  // a vector of the relation itself, added to it
        osl_vector_p x = build_vec(prec, p.m[0]);
        osl_relation_add_vector(w.r, x, 0);
        osl_vector_free(x);
        for (int j = 1; j < p.cols; j++) p.m[0][j] = plus(p.m[0][j], p.m[0][j], 1);
      }
      break;
    }
    case NULLS: {
      c.note("%s", nm);
      osl_relation_insert_vector(w.r, nullptr, 0);
      osl_relation_insert_constraints(w.r, nullptr, 0);
      osl_relation_insert_constraints(nullptr, w.r, 0);
      osl_relation_insert_columns(w.r, nullptr, 0);
      osl_relation_insert_columns(nullptr, w.r, 0);
      osl_relation_insert_blank_row(nullptr, 0);
      osl_relation_insert_blank_column(nullptr, 0);
      osl_relation_swap_constraints(nullptr, 0, 1);
      osl_relation_remove_row(nullptr, 0);
      osl_relation_remove_column(nullptr, 0);
      osl_relation_set_type(nullptr, 3);
      osl_relation_set_attributes(nullptr, 1, 2, 3, 4);
      c.check(osl_relation_from_vector(nullptr) == nullptr, "from_vector(NULL)");
      c.check(osl_relation_union(nullptr, nullptr) == nullptr, "union(NULL,NULL)");
      for (int k = 0; k < 4; k++) {
        osl_relation_p n = k == 0 ? osl_relation_concat_constraints(nullptr, w.r) : k == 1 ? osl_relation_concat_constraints(w.r, nullptr)
                         : k == 2 ? osl_relation_concat_vector(w.r, nullptr) : osl_relation_union(nullptr, w.r);
        Rel e = w.m;
        if (k < 3) e.resize(1);  // concatenations concern the first part only
        c.check(see(n).size() == e.size() && see_part(n).m == e[0].m, "concat/union with NULL (%d): expected %s got %s", k, str(e).c_str(), text(n).c_str());
        osl_relation_free(n);
      }
      break;
    }
  }
  compare(c, w, nm);
  return true;
}

void run(Ctx& c, const Rel& start, int depth, bool big) {
  W w;
  w.m = start;
  w.r = build(start);
  w.r->usr = &sentinel;
  compare(c, w, "start");
  if (!c.state(str(w.m), depth)) { osl_relation_free(w.r); return; }
  for (int i = 0; i < depth; i++) {
    if (!step(c, w, i, big)) return;
    c.outcome(str(w.m));
    if (i + 1 < depth && !c.state(str(w.m), depth - i - 1)) break;
    if (i + 1 == depth) c.state(str(w.m), 0);
  }
  osl_relation_free(w.r);
  c.check(mc::live() == 0, "%ld blocks leaked: %s", mc::live(), mc::live_desc().c_str());
}
}  // namespace

void setup() {
  // one operation from every small shape, all precisions
  mc::add("one-op", "1 operation; rows 0..3 x columns 0..5; 1 or 2 parts; SP/DP/MP; all positions -2..n+1", [](Ctx& c) {
    int prec = PRECS[c.choose(3, "precision")];
    int rows = c.choose(4, "rows"), cols = c.choose(6, "cols"), two = c.choose(2, "two parts");
    Rel u = {labelled(prec, rows, cols, 10)};
    if (two) u.push_back(labelled(prec, 2, cols, 700));
    run(c, u, 1, false);
  });
  mc::add("two-ops", "2 operations from shapes {0x3,1x2,2x3,1x1,2x1+part}", [](Ctx& c) {
    static const int sh[][2] = {{0, 3}, {1, 2}, {2, 3}, {1, 1}, {3, 2}};
    int k = c.choose(mc::q(4, 5), "shape"), two = c.choose(2, "two parts");
    Rel u = {labelled(OSL_PRECISION_MP, sh[k][0], sh[k][1], 10)};
    if (two) u.push_back(labelled(OSL_PRECISION_MP, 1, sh[k][1], 700));
    run(c, u, 2, false);
  });
  if (mc::thorough())
    mc::add("three-ops", "3 operations from 1x2 and 2x2+part", [](Ctx& c) {
      int k = c.choose(2, "shape");
      Rel u = {labelled(OSL_PRECISION_SP, 1 + k, 2, 10)};
      if (k) u.push_back(labelled(OSL_PRECISION_SP, 1, 2, 700));
      run(c, u, 3, false);
    });
  mc::add("large", "1 operation (2 thorough) on rows {1,5,9,17,33,65} x columns {2,9,17,33,65}, boundary positions", [](Ctx& c) {
    static const int R[] = {1, 5, 9, 17, 33, 65}, C[] = {2, 9, 17, 33, 65};
    int prec = PRECS[c.choose(mc::q(2, 3), "precision")];
    int rows = R[c.choose(6, "rows")], cols = C[c.choose(5, "cols")];
    run(c, {labelled(prec, rows, cols, 10)}, 1, true);
  });
}
