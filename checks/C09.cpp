// C09: relation lists behave as sequences.
#include "subject.hpp"
using namespace gn;

mc::Property property() {
  return {"C09",
          "every history of list operations up to the stated length on two list registers (starting absent), against plain "
          "sequences of relations: after each operation both lists hold exactly the predicted relations in order, counts and "
          "comparisons agree, operands that are inputs only are unchanged, and in the end every block is released exactly once",
          {"a pushed node is not part of another list", "filtering looks at the type of the first part of a union; ACCESS stands for every access type"}};
}
namespace {
struct E { bool null = false; Rel r; bool operator==(const E& o) const { return null == o.null && r == o.r; } };
using L = vector<E>;
const int T[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_DOMAIN, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS};
E elem(int k, int prec) {
  E e;
  if (k == 2) { e.null = true; return e; }
  int parts = k == 1 ? 2 : 1;
  for (int i = 0; i < parts; i++) e.r.push_back(part(T[k], 1, 0, 0, 0, vector<Row>(1 + i, Row{"0", "-1", std::to_string(k + 10 * i)}), prec));
  return e;
}
string show(const L& l) {
  string s = "[";
  for (auto& e : l) s += (e.null ? string("NULL") : str(e.r)) + ";";
  return s + "]";
}
bool is_access(int t) { return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE; }
size_t count(const L& l) { size_t n = 0; for (auto& e : l) n += !e.null; return n; }
L filter(const L& l, int t) {
  L r;
  for (auto& e : l) if (!e.null && (t == OSL_TYPE_ACCESS ? is_access(e.r[0].type) : e.r[0].type == t)) r.push_back(e);
  return r;
}
void compare(Ctx& c, const char* op, osl_relation_list_p a, const L& A) {
  c.check(text(a) == show(A), "%s: list is %s", op, differ(show(A), text(a)).c_str());
  c.check(osl_relation_list_count(a) == count(A), "%s: count %zu, expected %zu", op, osl_relation_list_count(a), count(A));
}
void history(Ctx& c, int depth, int elems, int maxlen, bool two) {
  int prec = PRECS[c.choose(mc::q(1, 3), "precision")];
  osl_relation_list_p l[2] = {nullptr, nullptr};
  L m[2];
  for (int i = 0; i < depth; i++) {
    if (!c.state(string(pname(prec)) + show(m[0]) + "|" + show(m[1]), depth - i)) break;
    int k = two ? c.choose(2, "list") : 0, o = 1 - k;
    osl_relation_list_p &a = l[k], &b = l[o];
    L &A = m[k], &B = m[o];
    int op = c.choose(two ? 14 : 9, "operation");
    c.step();
    const char* name = "";
    switch (op) {
      case 0: case 1: {
        name = op ? "push" : "add";
        if ((int)A.size() >= maxlen) { op = -1; break; }
        E e = elem(c.choose(elems, "element"), prec);
        osl_relation_list_p n = osl_relation_list_malloc();
        c.check(n->elt == nullptr && n->next == nullptr, "a fresh node is not empty");
        if (!e.null) n->elt = build(e.r);
        if (op) { osl_relation_list_push(&a, n); A.insert(A.begin(), e); } else { osl_relation_list_add(&a, n); A.push_back(e); }
        break;
      }
      case 2: {
        name = "node";
        if ((int)A.size() >= maxlen) { op = -1; break; }
        E e = elem(c.choose(elems, "element"), prec);
        osl_relation_p r = e.null ? nullptr : build(e.r);
        osl_relation_list_p n = osl_relation_list_node(r);
        compare(c, "node", n, e.null ? L() : L{e});
        c.check(e.null || n->elt != r, "a node shares its relation with the argument");
        c.check(text(r) == (e.null ? "NULL" : str(e.r)), "node modified its argument");
        osl_relation_free(r);
        osl_relation_list_add(&a, n);
        if (!e.null) A.push_back(e);
        break;
      }
      case 3: {
        name = "pop";
        osl_relation_list_p t = osl_relation_list_pop(&a);
        if (A.empty()) { c.check(!t, "pop of an empty list gives something"); break; }
        compare(c, "popped node", t, L{A[0]});
        if (two && c.flip("push it on the other")) { osl_relation_list_push(&b, t); B.insert(B.begin(), A[0]); } else osl_relation_list_free(t);
        A.erase(A.begin());
        break;
      }
      case 4: name = "dup"; osl_relation_list_dup(&a); if (!A.empty()) A.insert(A.begin(), A[0]); break;
      case 5: name = "drop"; osl_relation_list_drop(&a); if (!A.empty()) A.erase(A.begin()); break;
      case 6: name = "destroy"; osl_relation_list_destroy(&a); c.check(!a, "a destroyed list is not empty"); A.clear(); break;
      case 7: {
        name = "filter";
        static const vector<int> F = {OSL_TYPE_ACCESS, OSL_TYPE_READ, OSL_TYPE_DOMAIN, OSL_TYPE_WRITE};
        int t = c.pick(F, "type");
        osl_relation_list_p f = osl_relation_list_filter(a, t);
        compare(c, "filtered list", f, filter(A, t));
        compare(c, "source of a filter", a, A);
        if (c.flip("keep")) { osl_relation_list_free(a); a = f; A = filter(A, t); } else osl_relation_list_free(f);
        break;
      }
      case 8: {
        name = "set_type";
        int t = c.flip("read") ? OSL_TYPE_READ : OSL_TYPE_DOMAIN;
        osl_relation_list_set_type(a, t);
        for (auto& e : A) for (auto& p : e.r) p.type = t;
        break;
      }
      case 9: {
        name = "clone";
        osl_relation_list_p n = osl_relation_list_clone(a);
        compare(c, "clone", n, A);
        osl_relation_list_free(b);
        b = n; B = A;
        break;
      }
      case 10: {
        name = "concat";
        if ((int)(A.size() + B.size()) > maxlen) { op = -1; break; }
        osl_relation_list_p n = osl_relation_list_concat(a, b);
        L C = A;
        C.insert(C.end(), B.begin(), B.end());
        compare(c, "concatenation", n, C);
        compare(c, "first operand of concat", a, A);
        compare(c, "second operand of concat", b, B);
        osl_relation_list_free(b);
        b = n; B = C;
        break;
      }
      case 11: {
        name = "concat with itself";
        if ((int)(2 * A.size()) > maxlen) { op = -1; break; }
        osl_relation_list_p n = osl_relation_list_concat(a, a);
        L C = A;
        C.insert(C.end(), A.begin(), A.end());
        compare(c, "concatenation", n, C);
        osl_relation_list_free(a);
        a = n; A = C;
        break;
      }
      case 12:
        name = "add whole list";
        osl_relation_list_add(&a, b);
        A.insert(A.end(), B.begin(), B.end());
        b = nullptr; B.clear();
        break;
      case 13: {
        name = "push nothing";
        osl_relation_list_push(&a, nullptr);
        osl_relation_list_add(&a, nullptr);
        break;
      }
    }
    if (op == -1) break;
    c.note("  %s -> %s | %s", name, show(m[0]).c_str(), show(m[1]).c_str());
    compare(c, name, l[0], m[0]);
    compare(c, name, l[1], m[1]);
    bool eq = m[0] == m[1];
    c.check((osl_relation_list_equal(l[0], l[1]) != 0) == eq && (osl_relation_list_equal(l[1], l[0]) != 0) == eq, "%s: comparison should give %d for %s %s", name, eq, show(m[0]).c_str(), show(m[1]).c_str());
  }
  osl_relation_list_free(l[0]);
  osl_relation_list_free(l[1]);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
// reading back list texts (with their element count) and exact positions
void all_types(Ctx& c) {
  static const vector<int> A = {OSL_UNDEFINED, OSL_TYPE_GENERIC, OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_ACCESS, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  int n = c.choose(4, "length");
  vector<Rel> v;
  L m;
  for (int i = 0; i < n; i++) {
    int t = n > 2 ? A[(i * 5 + c.choose(4, "type") * 3) % A.size()] : c.pick(A, "type");
    E e;
    e.r.push_back(part(t, 1, 0, 0, 0, {{"0", "-1", std::to_string(i)}}));
    if (c.flip("union")) e.r.push_back(part(c.flip("odd part") ? OSL_TYPE_DOMAIN : t, 1, 0, 0, 0, {{"1", "2", "3"}}));
    m.push_back(e);
    v.push_back(e.r);
  }
  osl_relation_list_p l = rlist(v);
  int f = c.choose((int)A.size(), "filter");
  c.state(show(m) + std::to_string(A[f]));
  c.step();
  osl_relation_list_p r = osl_relation_list_filter(l, A[f]);
  L want;
  for (size_t i = 0; i < m.size(); i++) {
    int t = m[i].r[0].type;
    bool acc = t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
    c.check((osl_relation_is_access(l ? [&] { auto x = l; for (size_t k = 0; k < i; k++) x = x->next; return x->elt; }() : nullptr) != 0) == acc, "is_access for type %d", t);
    if (A[f] == OSL_TYPE_ACCESS ? acc : t == A[f]) want.push_back(m[i]);
  }
  compare(c, "filter by type", r, want);
  compare(c, "source of a filter", l, m);
  osl_relation_list_set_type(r, A[f]);
  for (auto& e : want) for (auto& p : e.r) p.type = A[f];
  compare(c, "set_type", r, want);
  compare(c, "other list after set_type", l, m);
  osl_relation_list_free(r);
  osl_relation_list_free(l);
  c.check(mc::live() == 0, "leak: %s", mc::live_desc().c_str());
}
}  // namespace

void setup() {
  mc::add("two lists", "all histories of length " + std::to_string(mc::q(4, 5)) + " over 14 operations, lists of at most 4 elements out of 3 kinds", [](Ctx& c) { history(c, mc::q(4, 5), 3, 4, true); });
  mc::add("one list", "all histories of length " + std::to_string(mc::q(5, 6)) + " over 9 operations, at most " + std::to_string(mc::q(3, 5)) + " elements out of 5 kinds (union and absent relation included)", [](Ctx& c) { history(c, mc::q(5, 6), 5, mc::q(3, 5), false); });
  mc::add("types", "lists of up to 3 relations of every type, every filter and type change", all_types);
}
