// R08: the object model: classes, properties, metadata, notifications, references, the object registry and signals.
#include "vh.h"
#include <map>
#include <memory>
#include <set>
#include <algorithm>
using namespace vh;

namespace r08 {
static std::vector<std::string> g_hooks; // calls of the hand written hooks, in order
static std::vector<int> g_dead; // ids of the destroyed nodes, in order
static bool g_cancel = false;
static std::string S(const String &s) { CharString u = s.utf8(); return std::string(u.get_data() ? u.get_data() : ""); }
static String G(const std::string &s) { return String::utf8(s.c_str()); }

// A hierarchy in which every level may or may not have its own hooks.
class R8Base : public Object {
	SFW_OBJECT(R8Base, Object);
public:
	std::map<std::string, int> v;
	bool _set(const StringName &n, const Variant &p) { g_hooks.push_back("base.set." + S(n)); if (S(n) != "b" && S(n) != "both") return false; v["base." + S(n)] = p; return true; }
	bool _get(const StringName &n, Variant &r) const { g_hooks.push_back("base.get." + S(n)); if (S(n) != "b" && S(n) != "both") return false; auto i = v.find("base." + S(n)); r = i == v.end() ? -1 : i->second; return true; }
	void _notification(int w) { g_hooks.push_back(strf("base.%d", w)); if (w == NOTIFICATION_PREDELETE && g_cancel) cancel_free(); }
};
class R8Plain : public R8Base { // no hooks of its own
	SFW_OBJECT(R8Plain, R8Base);
};
class R8Leaf : public R8Plain {
	SFW_OBJECT(R8Leaf, R8Plain);
public:
	bool _set(const StringName &n, const Variant &p) { g_hooks.push_back("leaf.set." + S(n)); if (S(n) != "l" && S(n) != "both") return false; v["leaf." + S(n)] = p; return true; }
	bool _get(const StringName &n, Variant &r) const { g_hooks.push_back("leaf.get." + S(n)); if (S(n) != "l" && S(n) != "both") return false; auto i = v.find("leaf." + S(n)); r = i == v.end() ? -1 : i->second; return true; }
	void _notification(int w) { g_hooks.push_back(strf("leaf.%d", w)); }
};
class R8Only : public R8Base { // another branch with a notification hook only
	SFW_OBJECT(R8Only, R8Base);
public:
	void _notification(int w) { g_hooks.push_back(strf("only.%d", w)); }
};
class R8Ref : public Reference {
	SFW_OBJECT(R8Ref, Reference);
public:
	int id = -1; Ref<Reference> next; Ref<R8Ref> other;
	~R8Ref() { g_dead.push_back(id); }
};
class R8RefA : public R8Ref { SFW_OBJECT(R8RefA, R8Ref); };
class R8RefB : public R8Ref { SFW_OBJECT(R8RefB, R8Ref); };
class R8RefAA : public R8RefA { SFW_OBJECT(R8RefAA, R8RefA); };
class R8Res : public Resource { SFW_OBJECT(R8Res, Resource); };

struct Kind { const char *name; int parent; };
static const Kind OK_[] = { { "Object", -1 }, { "R8Base", 0 }, { "R8Plain", 1 }, { "R8Leaf", 2 }, { "R8Only", 1 } };
static Object *mkobj(int k) { switch (k) { case 0: return memnew(Object); case 1: return memnew(R8Base); case 2: return memnew(R8Plain); case 3: return memnew(R8Leaf); default: return memnew(R8Only); } }
static bool isa(int k, int a) { while (k >= 0) { if (k == a) return true; k = OK_[k].parent; } return false; }
} // namespace r08
using namespace r08;

UNIT("R08", "object.properties", 80000, 800000) {
	Rng &r = c.rng; int k = r.range(0, 4); Object *o = mkobj(k); c.label(OK_[k].name);
	bool hasb = isa(k, 1), hasl = isa(k, 3); std::map<std::string, int> m; static const char *names[] = { "b", "l", "both", "none", "" };
	uint64_t h = k; int hits = 0;
	for (int s = 0, n = r.range(1, 15); s < n; s++) {
		std::string nm = names[r.range(0, 4)]; int val = r.range(0, 99); bool valid = r.chance(0.5), probe = r.chance(0.8); g_hooks.clear();
		std::vector<std::string> want;
		if (r.chance(0.5)) { // the base is asked to store first
			bool done = false; if (hasb) { want.push_back("base.set." + nm); if (nm == "b" || nm == "both") { m["base." + nm] = val; done = true; } }
			if (!done && hasl) { want.push_back("leaf.set." + nm); if (nm == "l" || nm == "both") { m["leaf." + nm] = val; done = true; } }
			if (r.chance(0.5)) o->set(StringName(nm.c_str()), val, probe ? &valid : nullptr); else { Variant x = (const Object *)o; bool v2 = !done; x.set(Variant(nm.c_str()), val, &v2); valid = v2; probe = true; }
			if (probe) c.check("set_reported", valid == done, "storing \"" + nm + "\" in a " + OK_[k].name); hits += done;
		} else { // the most derived class is asked first
			bool done = false; int exp = 0;
			if (hasl) { want.push_back("leaf.get." + nm); if (nm == "l" || nm == "both") { done = true; exp = m.count("leaf." + nm) ? m["leaf." + nm] : -1; } }
			if (!done && hasb) { want.push_back("base.get." + nm); if (nm == "b" || nm == "both") { done = true; exp = m.count("base." + nm) ? m["base." + nm] : -1; } }
			Variant g; if (r.chance(0.5)) g = o->get(StringName(nm.c_str()), probe ? &valid : nullptr); else { Variant x = (const Object *)o; bool v2 = !done; g = x.get(Variant(nm.c_str()), &v2); valid = v2; probe = true; }
			if (probe) c.check("get_reported", valid == done, "reading \"" + nm + "\" from a " + OK_[k].name);
			c.check("value", done ? g.get_type() == Variant::INT && (int)g == exp : g.get_type() == Variant::NIL, strf("\"%s\" of a %s: want %d", nm.c_str(), OK_[k].name, exp)); hits += done;
		}
		c.check("hooks_asked", g_hooks == want, [&] { std::string t = "asked:"; for (auto &x : g_hooks) t += " " + x; t += " want:"; for (auto &x : want) t += " " + x; return t; }());
		h = hsh(h, hs(nm) + val);
	}
	memdelete(o); c.obs(h, hits > 0);
}

UNIT("R08", "object.metadata", 80000, 800000) {
	Rng &r = c.rng; std::vector<Object *> o{ memnew(Object), memnew(R8Leaf) }; std::vector<std::map<std::string, int>> m(2); std::vector<std::vector<std::string>> order(2);
	static const char *names[] = { "a", "b", "c", "", "long name with spaces", "\xc3\xa9" }; uint64_t h = 1; int edits = 0;
	auto put = [&](int i, const std::string &n, int v) { if (!m[i].count(n)) order[i].push_back(n); m[i][n] = v; };
	auto del = [&](int i, const std::string &n) { m[i].erase(n); order[i].erase(std::remove(order[i].begin(), order[i].end(), n), order[i].end()); };
	for (int s = 0, n = r.range(2, 30); s < n; s++) {
		int i = r.range(0, 1), v = r.range(0, 999); std::string nm = names[r.range(0, 5)]; String gn = G(nm); int op = r.range(0, 7);
		if (op <= 1) { o[i]->set_meta(gn, v); put(i, nm, v); edits++; c.label("set"); }
		else if (op == 2) { o[i]->set_meta(gn, Variant()); del(i, nm); c.label("set_nothing"); }
		else if (op == 3) { o[i]->remove_meta(gn); del(i, nm); c.label("remove"); }
		else if (op == 4) { Variant d = o[i]->get("__meta__"); Dictionary dd = d; c.check("all_size", dd.size() == (int)m[i].size(), "entries in all metadata"); for (auto &e : m[i]) c.check("all_values", dd.has(G(e.first)) && (int)dd[G(e.first)] == e.second, e.first); Array ks = dd.keys(); for (int q = 0; q < ks.size() && q < (int)order[i].size(); q++) c.check("all_order", S(ks[q]) == order[i][q], "order of the metadata"); c.label("read_all"); }
		else if (op == 5) { Dictionary d; std::map<std::string, int> nw; std::vector<std::string> no; for (int q = 0, z = r.range(0, 3); q < z; q++) { std::string x = names[r.range(0, 5)]; int y = r.range(0, 9); if (!nw.count(x)) no.push_back(x); nw[x] = y; d[G(x)] = y; } bool ok = false; o[i]->set("__meta__", d, &ok); c.check("replace_all", ok, "replacing all metadata was refused"); m[i] = nw; order[i] = no; d[G("added later")] = 5; d.erase(G("a")); c.label("replace_all"); edits++; }
		else if (op == 6) { bool ok = false; o[i]->set("__meta__", o[1 - i]->get("__meta__"), &ok); m[i] = m[1 - i]; order[i] = order[1 - i]; c.label("copy_all"); }
		else { Variant g = o[i]->get_meta(gn, -7), z = o[i]->get_meta(gn); c.check("default", (int)g == (m[i].count(nm) ? m[i][nm] : -7) && (z.get_type() == Variant::NIL) == !m[i].count(nm), "default of \"" + nm + "\""); c.label("read"); }
		for (int q = 0; q < 2; q++) for (auto nn : names) { bool has = m[q].count(nn) > 0; c.check("has", o[q]->has_meta(G(nn)) == has, strf("\"%s\" of object %d", nn, q)); if (has) c.check("value", (int)o[q]->get_meta(G(nn)) == m[q][nn], strf("\"%s\" of object %d", nn, q)); }
		h = hsh(h, op * 7 + i + hs(nm) + v);
	}
	for (auto *x : o) memdelete(x);
	c.obs(h, edits > 1);
}

UNIT("R08", "object.lifecycle", 40000, 400000) {
	Rng &r = c.rng; int k = r.range(0, 4); c.label(OK_[k].name); g_hooks.clear(); g_cancel = false;
	auto seq = [&](int w, bool rev) { std::vector<std::string> s; if (isa(k, 1)) s.push_back(strf("base.%d", w)); if (isa(k, 3)) s.push_back(strf("leaf.%d", w)); if (isa(k, 4)) s.push_back(strf("only.%d", w)); if (rev) std::reverse(s.begin(), s.end()); return s; };
	auto cmp = [&](const char *kind, const std::vector<std::string> &w) { std::string t = "got:"; for (auto &x : g_hooks) t += " " + x; t += " want:"; for (auto &x : w) t += " " + x; c.check(kind, g_hooks == w, t); g_hooks.clear(); };
	int before = ObjectDB::get_object_count(); Object *o = mkobj(k); cmp("created", seq(Object::NOTIFICATION_POSTINITIALIZE, false));
	ObjectID id = o->get_instance_id(); c.check("registered", id != 0 && ObjectDB::get_instance(id) == o && ObjectDB::instance_validate(o) && ObjectDB::get_object_count() == before + 1, "a new object is not registered");
	for (int s = 0, n = r.range(0, 5); s < n; s++) { int w = r.range(2, 1000); bool rev = r.chance(0.5); o->notification(w, rev); cmp("notified", seq(w, rev)); }
	c.check("text", S(o->to_string()) == strf("[%s:%llu]", OK_[k].name, (unsigned long long)id), S(o->to_string()));
	if (isa(k, 1) && r.chance(0.4)) { g_cancel = true; memdelete(o); cmp("kept_notified", seq(Object::NOTIFICATION_PREDELETE, true)); g_cancel = false; c.check("kept", ObjectDB::get_instance(id) == o && o->is_class(OK_[k].name) && S(o->get_class()) == OK_[k].name, "deletion was cancelled but the object is gone"); c.count("cancelled_deletions"); }
	memdelete(o); cmp("deleted", seq(Object::NOTIFICATION_PREDELETE, true));
	c.check("unregistered", ObjectDB::get_instance(id) == nullptr && ObjectDB::get_object_count() == before, "a deleted object is still registered");
	c.obs(hsh(k, id), k > 0);
}

UNIT("R08", "object.classes", 20000, 200000) {
	Rng &r = c.rng; int k = r.range(0, 4); Object *o = mkobj(k); c.label(OK_[k].name);
	for (int a = 0; a < 5; a++) {
		bool w = isa(k, a); c.check("is_class", o->is_class(OK_[a].name) == w, strf("%s is a %s", OK_[k].name, OK_[a].name));
		const Object *co = o; const void *got = nullptr, *cgot = nullptr; void *p = nullptr;
		switch (a) { case 0: got = Object::cast_to<Object>(o); cgot = Object::cast_to<Object>(co); p = Object::get_class_ptr_static(); break; case 1: got = Object::cast_to<R8Base>(o); cgot = Object::cast_to<R8Base>(co); p = R8Base::get_class_ptr_static(); break; case 2: got = Object::cast_to<R8Plain>(o); cgot = Object::cast_to<R8Plain>(co); p = R8Plain::get_class_ptr_static(); break; case 3: got = Object::cast_to<R8Leaf>(o); cgot = Object::cast_to<R8Leaf>(co); p = R8Leaf::get_class_ptr_static(); break; default: got = Object::cast_to<R8Only>(o); cgot = Object::cast_to<R8Only>(co); p = R8Only::get_class_ptr_static(); }
		c.check("cast", got == (w ? (void *)o : nullptr) && cgot == got, strf("cast of a %s to %s", OK_[k].name, OK_[a].name)); c.check("class_ptr", o->is_class_ptr(p) == w, strf("%s against %s", OK_[k].name, OK_[a].name));
	}
	c.check("unknown", !o->is_class("NoSuchClass") && !o->is_class("") && Object::cast_to<R8Leaf>((Object *)nullptr) == nullptr && Object::cast_to<Reference>(o) == nullptr, "an object of an unrelated class");
	c.check("name", S(o->get_class()) == OK_[k].name && S(o->get_class_name()) == OK_[k].name, "class name");
	// static descriptions of own and library classes
	auto desc = [&](const std::vector<std::string> &chain, void (*lst)(Vector<String> *), String name, String parent, String inh) {
		Vector<String> l; lst(&l); bool ok = l.size() == (int)chain.size(); for (int i = 0; ok && i < l.size(); i++) ok = S(l[i]) == chain[i]; c.check("chain", ok, chain.back()); c.check("static_names", S(name) == chain.back() && S(parent) == chain[chain.size() - 2] && S(inh) == chain[chain.size() - 2], chain.back());
	};
#define D(T, ...) desc({ "Object", __VA_ARGS__ }, T::get_inheritance_list_static, T::get_class_static(), T::get_parent_class_static(), T::inherits_static())
	D(R8Leaf, "R8Base", "R8Plain", "R8Leaf"); D(R8Only, "R8Base", "R8Only"); D(Reference, "Reference"); D(Resource, "Reference", "Resource"); D(R8RefAA, "Reference", "R8Ref", "R8RefA", "R8RefAA");
	D(MLPPVector, "Reference", "Resource", "MLPPVector"); D(MLPPMatrix, "Reference", "Resource", "MLPPMatrix"); D(MLPPTensor3, "Reference", "Resource", "MLPPTensor3");
#undef D
	{ RV v = newv({ 1 }); RM m = newm(1, 1); Object *ov = v.ptr(), *om = m.ptr(); c.check("library", ov->is_class("MLPPVector") && ov->is_class("Reference") && !ov->is_class("MLPPMatrix") && Object::cast_to<MLPPMatrix>(ov) == nullptr && Object::cast_to<MLPPVector>(om) == nullptr && Object::cast_to<MLPPMatrix>(om) == om && Object::cast_to<Resource>(ov) == ov, "vector and matrix classes"); }
	c.check("order", o->lt(r.range(0, 4), 5) && !o->lt(5, 5) && !o->lt(6, 5), "default order");
	memdelete(o); c.obs(k, k > 0);
}

UNIT("R08", "object.registry", 16000, 120000) {
	Rng &r = c.rng; int base = ObjectDB::get_object_count(); std::vector<Object *> live; std::vector<ObjectID> ids; std::set<ObjectID> ever; uint64_t h = 1; int churn = 0;
	for (int s = 0, n = r.range(5, 120); s < n; s++) {
		if (live.empty() || r.chance(0.6)) { Object *o = mkobj(r.range(0, 4)); ObjectID id = o->get_instance_id(); c.check("unique", ever.insert(id).second && id != 0, "an instance id was used twice"); live.push_back(o); ids.push_back(id); }
		else { int i = r.range(0, (int)live.size() - 1); memdelete(live[i]); c.check("gone", ObjectDB::get_instance(ids[i]) == nullptr, "a deleted object is found"); live.erase(live.begin() + i); ids.erase(ids.begin() + i); churn++; }
		for (size_t i = 0; i < live.size(); i++) c.check("found", ObjectDB::get_instance(ids[i]) == live[i] && live[i]->get_instance_id() == ids[i] && ObjectDB::instance_validate(live[i]), "a live object is not found by its id");
		c.check("count", ObjectDB::get_object_count() == base + (int)live.size(), "object count");
		h = hsh(h, live.size());
	}
	static std::set<Object *> seen; seen.clear(); ObjectDB::debug_objects([](Object *o) { seen.insert(o); }); bool all = true; for (auto *o : live) all &= seen.count(o) > 0; c.check("visited", all && (int)seen.size() == base + (int)live.size(), "visiting every object");
	for (ObjectID id : { (ObjectID)0, (ObjectID)1, (ObjectID)-1 }) c.check("no_such", !ever.count(id) ? (ObjectDB::get_instance(id) == nullptr || id == 1) : true, "lookup of an id never given out");
	for (auto *o : live) memdelete(o);
	c.check("none_left", ObjectDB::get_object_count() == base, "object count after deleting all"); c.obs(h, churn > 2);
}

// Handles of different static types to one object: conversions, casts that fail, and the moment of destruction.
UNIT("R08", "ref.history", 120000, 1200000) {
	Rng &r = c.rng; g_dead.clear();
	static const int par[] = { -1, 0, 1, 1, 2 }; // Reference, R8Ref, R8RefA, R8RefB, R8RefAA
	auto is_a = [&](int k, int a) { while (k >= 0) { if (k == a) return true; k = par[k]; } return false; };
	struct Node { R8Ref *p; int kind; bool alive; int next, other; }; std::vector<Node> nodes;
	Ref<Reference> h0[2]; Ref<R8Ref> h1[2]; Ref<R8RefA> h2[2]; Ref<R8RefB> h3[2]; Variant h4[2]; RefPtr h5[2];
	static const int tk[] = { 0, 1, 2, 3, 0, 0 }; int held[6][2]; for (auto &x : held) x[0] = x[1] = -1;
	int base = ObjectDB::get_object_count(); uint64_t hh = 1; int conv = 0, failed = 0, own = 0; std::vector<int> dead;
	// the model: an object dies when nothing holds it any more
	auto refs = [&](int i) { int n = 0; for (auto &x : held) n += (x[0] == i) + (x[1] == i); for (auto &d : nodes) if (d.alive) n += (d.next == i) + (d.other == i); return n; };
	auto sweep = [&]() { bool ch = true; while (ch) { ch = false; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].alive && !refs((int)i)) { nodes[i].alive = false; nodes[i].next = nodes[i].other = -1; dead.push_back((int)i); ch = true; } } };
	auto obj = [&](int t, int s) -> Reference * { switch (t) { case 0: return h0[s].ptr(); case 1: return h1[s].ptr(); case 2: return h2[s].ptr(); case 3: return h3[s].ptr(); case 4: { Object *o = h4[s]; return Object::cast_to<Reference>(o); } default: { Ref<Reference> x(h5[s]); return x.ptr(); } } };
	for (int st = 0, S2 = r.range(3, 40); st < S2; st++) {
		int op = r.range(0, 9), t = r.range(0, 5), s = r.range(0, 1), u = r.range(0, 5), q = r.range(0, 1); bool skip = false;
		if (op == 0 && nodes.size() < 12) { // a new object in a handle of its own type
			int k = r.range(1, 4); R8Ref *p; t = k == 4 ? 2 : k; s = r.range(0, 1);
			switch (k) { case 1: if (r.chance(0.5)) h1[s].instance(); else h1[s] = Ref<R8Ref>(memnew(R8Ref)); p = h1[s].ptr(); break; case 2: h2[s].instance(); p = h2[s].ptr(); break; case 3: if (r.chance(0.5)) h3[s].instance(); else { h3[s].unref(); h3[s].reference_ptr(memnew(R8RefB)); } p = h3[s].ptr(); break; default: h2[s] = Ref<R8RefAA>(memnew(R8RefAA)); p = h2[s].ptr(); }
			p->id = (int)nodes.size(); nodes.push_back({ p, k, true, -1, -1 }); held[t][s] = p->id; c.label("new");
		} else if (op <= 5 && op > 0) { // assign one handle to another, whatever the types
			int from = held[u][q]; bool fit = from < 0 || is_a(nodes[from].kind, tk[t]);
#define FROM(X) switch (u) { case 0: X = h0[q]; break; case 1: X = h1[q]; break; case 2: X = h2[q]; break; case 3: X = h3[q]; break; case 4: X = h4[q]; break; default: X = h5[q]; }
			if (r.chance(0.3)) { // construct
#define CON(T, dst) switch (u) { case 0: { Ref<T> x(h0[q]); dst = x; break; } case 1: { Ref<T> x(h1[q]); dst = x; break; } case 2: { Ref<T> x(h2[q]); dst = x; break; } case 3: { Ref<T> x(h3[q]); dst = x; break; } case 4: { Ref<T> x(h4[q]); dst = x; break; } default: { Ref<T> x(h5[q]); dst = x; } }
				switch (t) { case 0: CON(Reference, h0[s]); break; case 1: CON(R8Ref, h1[s]); break; case 2: CON(R8RefA, h2[s]); break; case 3: CON(R8RefB, h3[s]); break; default: skip = true; }
			} else if (t < 4 && r.chance(0.2)) { // from a plain pointer of another type, often to the object held already
				if (r.chance(0.4)) { u = t; q = s; from = held[u][q]; fit = true; }
				Reference *p = obj(u, q); bool direct = r.chance(0.3); c.label("pointer");
				switch (t) { case 0: if (direct) h0[s] = Ref<Reference>(p); else h0[s].reference_ptr(p); break; case 1: if (direct) h1[s] = Ref<R8Ref>(Object::cast_to<R8Ref>(p)); else h1[s].reference_ptr(p); break; case 2: if (direct) h2[s] = Ref<R8RefA>(Object::cast_to<R8RefA>(p)); else h2[s].reference_ptr(p); break; default: if (direct) h3[s] = Ref<R8RefB>(Object::cast_to<R8RefB>(p)); else h3[s].reference_ptr(p); }
			} else switch (t) {
				case 0: FROM(h0[s]); break; case 1: FROM(h1[s]); break; case 2: FROM(h2[s]); break; case 3: FROM(h3[s]); break;
				case 4: if (u < 4) { switch (u) { case 0: h4[s] = h0[q]; break; case 1: h4[s] = h1[q]; break; case 2: h4[s] = h2[q]; break; default: h4[s] = h3[q]; } } else if (u == 4) h4[s] = h4[q]; else h4[s] = Variant(h5[q]); break;
				default: switch (u) { case 0: h5[s] = h0[q].get_ref_ptr(); break; case 1: h5[s] = h1[q].get_ref_ptr(); break; case 2: h5[s] = h2[q].get_ref_ptr(); break; case 3: h5[s] = h3[q].get_ref_ptr(); break; case 4: h5[s] = h4[q].operator RefPtr(); break; default: h5[s] = h5[q]; }
			}
			if (!skip) { held[t][s] = fit ? from : -1; conv++; failed += !fit; c.label(fit ? "assign" : "assign_unrelated"); }
		} else if (op == 6) { // drop
			switch (t) { case 0: h0[s].unref(); break; case 1: h1[s] = Ref<R8Ref>(); break; case 2: h2[s].unref(); break; case 3: h3[s] = Ref<R8RefB>(); break; case 4: h4[s] = Variant(); break; default: h5[s].unref(); } held[t][s] = -1; c.label("drop");
		} else if (op == 7) { // store a handle inside an object (never a cycle)
			int i = held[1][s], j = held[u][q]; if (i < 0 || j < 0) continue; std::function<bool(int)> rch = [&](int a) { if (a == i) return true; if (a < 0) return false; return rch(nodes[a].next) || rch(nodes[a].other); }; if (rch(j)) continue;
			if (r.chance(0.5)) { h1[s]->next = Ref<Reference>(obj(u, q)); nodes[i].next = j; } else { h1[s]->other = Ref<R8Ref>(Object::cast_to<R8Ref>(obj(u, q))); nodes[i].other = j; } c.label("store");
		} else if (op == 8) { // a handle replaced by one held inside the object it holds
			int i = held[1][s]; if (i < 0) continue; int j = nodes[i].other;
			if (r.chance(0.6)) { h1[s] = h1[s]->other; held[1][s] = j; } else { j = nodes[i].next; h1[s] = h1[s]->next; held[1][s] = j; } own++; c.label("replace_by_own_member");
		} else { // compare
			int i = held[t][s], j = held[u][q]; c.label("compare"); c.check("same", (obj(t, s) == obj(u, q)) == (i == j), "two handles of one object");
			c.check("equality", (h1[0] == h1[1]) == (held[1][0] == held[1][1]) && (h1[0] != h1[1]) == (held[1][0] != held[1][1]) && (h5[0] == h5[1]) == (held[5][0] == held[5][1]) && (h4[0] == h4[1] || held[4][0] < 0 || held[4][1] < 0) == (held[4][0] == held[4][1] || held[4][0] < 0 || held[4][1] < 0), "equality of handles");
		}
		sweep();
		std::vector<int> a = dead, b = g_dead; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
		if (!c.check("destroyed", a == b, [&] { std::string x = "destroyed:"; for (int z : b) x += strf(" %d", z); x += " expected:"; for (int z : a) x += strf(" %d", z); return x; }())) return;
		int live = 0; for (size_t i = 0; i < nodes.size(); i++) if (nodes[i].alive) { live++; c.check("count", nodes[i].p->reference_get_count() == refs((int)i), strf("object %d has count %d, expected %d", (int)i, nodes[i].p->reference_get_count(), refs((int)i))); }
		c.check("live", ObjectDB::get_object_count() == base + live, "number of live objects");
		for (int x = 0; x < 6; x++) for (int y = 0; y < 2; y++) c.check("held", obj(x, y) == (held[x][y] < 0 ? nullptr : nodes[held[x][y]].p), strf("what handle %d.%d holds", x, y));
		hh = hsh(hh, op * 100 + t * 12 + s * 6 + u);
	}
	for (int s = 0; s < 2; s++) { h0[s].unref(); h1[s].unref(); h2[s].unref(); h3[s].unref(); h4[s] = Variant(); h5[s].unref(); }
	std::vector<int> b = g_dead; std::sort(b.begin(), b.end()); bool once = b.size() == nodes.size(); for (size_t i = 0; once && i < b.size(); i++) once = b[i] == (int)i; c.check("each_once", once, "every object destroyed exactly once");
	c.check("none_left", ObjectDB::get_object_count() == base, "objects left"); c.count("failed_casts", failed); c.count("own_members", own); c.obs(hh, conv > 2);
}

// Signals. Every handler records what it was called with and then carries out what the case planned for it.
namespace r08 {
struct Conn { int kind, fn, obj; bool operator==(const Conn &o) const { return kind == o.kind && fn == o.fn && obj == o.obj; } };
struct Call { Conn who; std::vector<int> params; const Object *emitter; };
struct World {
	Ctx *c; Signal *sig; std::vector<Object *> emitters; std::vector<Conn> conns; std::vector<std::pair<long, Conn>> serial; long next_serial = 0;
	std::vector<R8Base *> objs; int depth = 0, budget = 0; std::vector<std::vector<Call> *> frames; long nested = 0, edits = 0;
};
static World *W;
static void on_call(Conn who, Signal *s);
static void st0(Signal *s) { on_call({ 0, 0, -1 }, s); }
static void st1(Signal *s) { on_call({ 0, 1, -1 }, s); }
static void st2(Signal *s) { on_call({ 0, 2, -1 }, s); }
static int oid(R8Base *o) { for (size_t i = 0; i < W->objs.size(); i++) if (W->objs[i] == o) return (int)i; return -2; }
static void ob0(R8Base *o, Signal *s) { on_call({ 1, 0, oid(o) }, s); }
static void ob1(R8Base *o, Signal *s) { on_call({ 1, 1, oid(o) }, s); }
static void (*STF[])(Signal *) = { st0, st1, st2 };
static void (*OBF[])(R8Base *, Signal *) = { ob0, ob1 };
static void do_connect(const Conn &k) { if (k.kind == 0) W->sig->connect_static(STF[k.fn]); else W->sig->connect(W->objs[k.obj], OBF[k.fn]); W->serial.push_back({ W->next_serial++, k }); }
static void do_disconnect(const Conn &k) { if (k.kind == 0) W->sig->disconnect_static(STF[k.fn]); else W->sig->disconnect(W->objs[k.obj], OBF[k.fn]); for (size_t i = 0; i < W->serial.size(); i++) if (W->serial[i].second == k) { W->serial.erase(W->serial.begin() + i); break; } }
static Conn rconn(Rng &r) { return r.chance(0.5) ? Conn{ 0, r.range(0, 2), -1 } : Conn{ 1, r.range(0, 1), r.range(0, 2) }; }
static void do_emit(Rng &r) {
	Ctx &c = *W->c; std::vector<int> p; for (int i = 0, n = r.range(0, 5); i < n; i++) p.push_back(r.range(0, 999)); Object *em = r.chance(0.1) ? nullptr : r.pick(W->emitters);
	std::vector<Call> calls; W->frames.push_back(&calls); auto before = W->serial; long fresh = W->next_serial; W->depth++;
	switch (p.size()) { case 0: W->sig->emit(em); break; case 1: W->sig->emit(em, p[0]); break; case 2: W->sig->emit(em, p[0], p[1]); break; case 3: W->sig->emit(em, p[0], p[1], p[2]); break; case 4: W->sig->emit(em, p[0], p[1], p[2], p[3]); break; default: W->sig->emit(em, p[0], p[1], p[2], p[3], p[4]); }
	W->depth--; W->frames.pop_back();
	for (auto &k : calls) { c.check("params", k.params == p, strf("a handler saw %d parameters of %d%s", (int)k.params.size(), (int)p.size(), W->depth ? " (nested)" : "")); c.check("emitter", k.emitter == em, "the emitter a handler saw"); }
	// Every handler connected before and still connected after is called, in order. Those edited meanwhile may or may not be.
	std::vector<Conn> must, may; for (auto &e : before) { bool still = false; for (auto &f : W->serial) still |= f.first == e.first; if (still) must.push_back(e.second); }
	bool edited = must.size() != before.size() || W->next_serial != fresh;
	std::vector<Conn> got; for (auto &k : calls) got.push_back(k.who);
	if (!edited) { bool ok = got == must; c.check("called", ok, strf("%d handlers called, %d connected", (int)got.size(), (int)must.size())); }
	else { size_t j = 0; for (auto &g : got) if (j < must.size() && g == must[j]) j++; c.check("called_after_edit", j == must.size(), strf("%d of %d handlers that stayed connected were called", (int)j, (int)must.size()));
		// nobody is called more often than it was ever connected during the emission
		for (auto &g : got) { int n = 0, k = 0; for (auto &x : got) n += x == g; for (auto &e : before) k += e.second == g; for (auto &f : W->serial) k += f.second == g && f.first >= fresh; k += 0; int upper = k; if (n > upper + (int)(W->next_serial - fresh)) c.fail("called_too_often", strf("%d calls", n)); } }
	c.count("emissions");
}
static void on_call(Conn who, Signal *s) {
	World *w = W; Call k; k.who = who; k.emitter = s->emitter; for (int i = 0; i < s->params.size(); i++) k.params.push_back(s->params[i]);
	w->c->check("signal_passed", s == w->sig, "the signal a handler got"); w->frames.back()->push_back(k);
	// a disconnected handler is not called
	bool on = false; for (auto &e : w->serial) on |= e.second == who; w->c->check("connected", on, "a handler that is not connected was called");
	Rng &r = w->c->rng; if (w->budget <= 0) return;
	if (r.chance(0.12)) { w->budget--; w->edits++; do_disconnect(r.chance(0.6) ? who : rconn(r)); w->c->label("disconnect_while_emitting"); }
	else if (r.chance(0.06)) { w->budget--; w->edits++; do_connect(rconn(r)); w->c->label("connect_while_emitting"); }
	else if (r.chance(0.12) && w->depth < 3) { w->budget--; w->nested++; w->c->label("emit_while_emitting"); do_emit(r);
		// the rest of this handler still sees its own emission
		std::vector<int> now; for (int i = 0; i < s->params.size(); i++) now.push_back(s->params[i]); w->c->check("params_after_nested", now == k.params && s->emitter == k.emitter, strf("after emitting from a handler it sees %d parameters instead of %d", (int)now.size(), (int)k.params.size())); }
}
} // namespace r08

UNIT("R08", "signal.history", 80000, 800000) {
	Rng &r = c.rng; World w; w.c = &c; Ref<R8Res> res; res.instance(); Signal own; w.sig = r.chance(0.5) ? &own : &res->changed; for (int i = 0; i < 2; i++) w.emitters.push_back(memnew(Object)); for (int i = 0; i < 3; i++) w.objs.push_back(memnew(R8Base)); W = &w; w.budget = r.chance(0.5) ? 0 : 6; uint64_t h = 1;
	c.label("plain");
	for (int s = 0, n = r.range(3, 30); s < n; s++) {
		int op = r.range(0, 9); Conn k = rconn(r);
		if (op <= 3) do_connect(k); else if (op == 4) do_disconnect(k); else if (op <= 7) { w.depth = 0; do_emit(r); }
		else if (op == 8 && w.sig == &res->changed) { std::vector<Call> calls; w.frames.push_back(&calls); int b = w.budget; w.budget = 0; auto bef = w.serial; res->emit_changed(); w.budget = b; w.frames.pop_back(); bool ok = calls.size() == bef.size(); for (size_t i = 0; ok && i < calls.size(); i++) ok = calls[i].who == bef[i].second && calls[i].params.empty() && calls[i].emitter == res.ptr(); c.check("changed", ok, "handlers of a changed resource"); }
		for (int f = 0; f < 3; f++) { Conn q{ 0, f, -1 }; bool on = false; for (auto &e : w.serial) on |= e.second == q; c.check("is_connected", w.sig->is_connected_static(STF[f]) == on, "a free handler"); }
		for (int f = 0; f < 2; f++) for (int o = 0; o < 3; o++) { Conn q{ 1, f, o }; bool on = false; for (auto &e : w.serial) on |= e.second == q; c.check("is_connected", w.sig->is_connected(w.objs[o], OBF[f]) == on, "a handler of an object"); }
		h = hsh(h, op * 31 + k.kind * 10 + k.fn * 4 + k.obj);
	}
	c.count("nested_emissions", w.nested); c.count("edits_while_emitting", w.edits);
	for (auto *o : w.objs) memdelete(o); for (auto *o : w.emitters) memdelete(o); W = nullptr; c.obs(h, w.nested + w.edits > 0);
}
