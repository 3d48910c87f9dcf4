// P02: file loading (scratch files of known content) and text processing against reference definitions.
#include "vh.h"
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
typedef std::vector<std::string> SV;
static const std::string &scratch() {
	static struct Dir { std::string p; Dir() { char t[] = "/tmp/vh_p02_XXXXXX"; p = mkdtemp(t); } ~Dir() { for (const char *n : { "/a.csv", "/b.txt" }) unlink((p + n).c_str()); rmdir(p.c_str()); } } d;
	return d.p;
}
static void put(const std::string &f, const std::string &s) { FILE *o = fopen(f.c_str(), "wb"); fwrite(s.data(), 1, s.size(), o); fclose(o); }
static String S(const std::string &s) { return String(s.c_str()); }
static std::string U(const String &s) { return s.utf8().get_data(); }
static Vector<String> VS(const SV &v) { Vector<String> o; for (auto &s : v) o.push_back(S(s)); return o; }
static SV SS(const Vector<String> &v) { SV o; for (int i = 0; i < v.size(); i++) o.push_back(U(v[i])); return o; }
static SV full(const SV &v) { SV o; for (auto &s : v) if (!s.empty()) o.push_back(s); return o; }
static std::string show(const SV &v) { std::string o = "["; for (size_t i = 0; i < v.size(); i++) o += (i ? "|" : "") + v[i]; return o + "]"; }
static std::string lower(std::string s) { for (char &q : s) q = tolower(q); return s; }
static bool same(Ctx &c, const std::string &kind, const SV &got, const SV &want, const std::string &of = "") { return c.check(kind, got == want, "got " + show(got) + " expected " + show(want) + (of.empty() ? "" : " of '" + of + "'")); }
// words and single punctuation marks, in order
static SV words(const std::string &t) {
	SV o; std::string w;
	for (char q : t) { bool p = q == ',' || q == '!' || q == '.' || q == '-'; if (q == ' ' || p) { if (!w.empty()) o.push_back(w); w.clear(); if (p) o.push_back(std::string(1, q)); } else w += q; }
	if (!w.empty()) o.push_back(w);
	return o;
}
static SV uniq(const SV &v) { SV o; for (auto &s : v) if (std::find(o.begin(), o.end(), s) == o.end()) o.push_back(s); return o; }
static SV without(const SV &v, const SV &st) { SV o; for (auto &s : v) if (std::find(st.begin(), st.end(), s) == st.end()) o.push_back(s); return o; }

static const SV VOC = { "pizza", "ramen", "sushi", "The", "the", "a", "I", "boy", "girl", "Good", "good", "not", "is", "x", "cookie", "running", "hopeless", "He", "now", "7" };
static const SV DEF_STOP = { "i", "me", "my", "myself", "we", "our", "ours", "ourselves", "you", "your", "yours", "yourself", "yourselves", "he", "him", "his", "himself", "she", "her", "hers", "herself", "it", "its", "itself", "they", "them", "their", "theirs", "themselves", "what", "which", "who", "whom", "this", "that", "these", "those", "am", "is", "are", "was", "were", "be", "been", "being", "have", "has", "had", "having", "do", "does", "did", "doing", "a", "an", "the", "and", "but", "if", "or", "because", "as", "until", "while", "of", "at", "by", "for", "with", "about", "against", "between", "into", "through", "during", "before", "after", "above", "below", "to", "from", "up", "down", "in", "out", "on", "off", "over", "under", "again", "further", "then", "once", "here", "there", "when", "where", "why", "how", "all", "any", "both", "each", "few", "more", "most", "other", "some", "such", "no", "nor", "not", "only", "own", "same", "so", "than", "too", "very", "s", "t", "can", "will", "just", "don", "should", "now" };
static const SV DEF_SUF = { "eer", "er", "ion", "ity", "ment", "ness", "or", "sion", "ship", "th", "able", "ible", "al", "ant", "ary", "ful", "ic", "ious", "ous", "ive", "less", "y", "ed", "en", "ing", "ize", "ise", "ly", "ward", "wise" };
// words separated by single spaces; punctuation possible. hostile: punctuation glued to words, runs of spaces
static std::string sentence(Rng &r, int n, bool hostile, bool punct) {
	std::string o;
	for (int i = 0; i < n; i++) {
		if (i) o += hostile && r.chance(0.15) ? (r.chance(0.5) ? "  " : "   ") : " ";
		if (hostile && punct && r.chance(0.08)) o += std::string(1, ",!.-"[r.range(0, 3)]);
		o += r.pick(VOC);
		if (punct && r.chance(0.25)) { o += ",!.-"[r.range(0, 3)]; if (hostile && r.chance(0.3)) o += r.pick(VOC); if (hostile && r.chance(0.15)) o += ",!.-"[r.range(0, 3)]; }
	}
	if (hostile && r.chance(0.15)) o = " " + o; if (hostile && r.chance(0.15)) o += " ";
	return o;
}

static std::string num(Rng &r, double &v) {
	char b[64];
	switch (r.range(0, 5)) {
		case 0: sprintf(b, "%d", r.range(-1000, 1000)); break;
		case 1: sprintf(b, "%.3f", r.uni(-100, 100)); break;
		case 2: sprintf(b, "%.6g", r.uni(-1, 1)); break;
		case 3: sprintf(b, "%.4e", r.uni(-1, 1) * std::pow(10, r.range(-5, 5))); break;
		case 4: sprintf(b, "%s", r.chance(0.5) ? "0" : "1"); break;
		default: sprintf(b, "%.2f", r.uni(0, 9999)); break;
	}
	v = atof(b); return b;
}
struct Csv { std::string text; DM d; bool trailing, blank, crlf; };
static Csv csv(Rng &r, int n, int k) {
	Csv f; f.d = DM(n, k); f.crlf = r.chance(0.1); std::string nl = f.crlf ? "\r\n" : "\n"; f.blank = false;
	for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) { double v; f.text += (j ? "," : "") + num(r, v); f.d.at(i, j) = v; } if (i + 1 < n) f.text += nl; if (i + 1 < n && r.chance(0.03)) { f.text += nl; f.blank = true; } }
	f.trailing = r.chance(0.6); if (f.trailing) { f.text += nl; if (r.chance(0.2)) { f.text += nl; f.blank = true; } }
	return f;
}
UNIT("P02", "load", 1500, 40000) {
	Rng &r = c.rng; MLPPData d; std::string f = scratch() + "/a.csv";
	int n = r.chance(0.1) ? r.range(30, 80) : r.range(1, 8), k = r.range(1, 6);
	Csv q = csv(r, n, k + 1); put(f, q.text); long e0 = errors(); std::string why = strf("%d lines of %d numbers%s%s%s", n, k + 1, q.trailing ? ", newline at the end" : "", q.blank ? ", blank lines" : "", q.crlf ? ", CRLF" : "");
	DM in(n, k); DV out(n); for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) in.at(i, j) = q.d.at(i, j); out[i] = q.d.at(i, k); }
	c.label("set_data_supervised"); c.sample(why);
	RM I = r.chance(0.3) ? mkm(gm(r, 2, 3)) : newm(); RV O = r.chance(0.3) ? mkv(gv(r, 4)) : newv();
	d.set_data_supervised(k, S(f), I, O);
	if (c.check("samples", I->size() == Size2i(k, n), why + strf(": %d samples of %d columns", I->size().y, I->size().x))) cmpm(c, "input", I, in, 2e-6, 1e-12);
	cmpv(c, "output", O, out, 2e-6, 1e-12);
	c.label("set_data_unsupervised"); RM Z = newm(); d.set_data_unsupervised(k + 1, S(f), Z);
	if (c.check("samples", Z->size() == Size2i(k + 1, n), why + strf(": %d samples of %d columns", Z->size().y, Z->size().x))) cmpm(c, "input", Z, q.d, 2e-6, 1e-12);
	if (r.chance(0.2)) { c.label("set_data_unsupervised.first_columns"); RM Y = newm(); d.set_data_unsupervised(k, S(f), Y); if (c.check("samples", Y->size() == Size2i(k, n))) cmpm(c, "input", Y, in, 2e-6, 1e-12); }
	{
		Csv p = csv(r, n, 2); put(f, p.text); DV x(n), y(n); for (int i = 0; i < n; i++) { x[i] = p.d.at(i, 0); y[i] = p.d.at(i, 1); }
		c.label("set_data_simple"); RV X = newv(), Y = newv(); d.set_data_simple(S(f), X, Y); cmpv(c, "input", X, x, 2e-6, 1e-12); cmpv(c, "output", Y, y, 2e-6, 1e-12);
		c.label("load_fires_and_crime"); Ref<MLPPDataESimple> e = d.load_fires_and_crime(S(f)); if (c.check("present", e.is_valid())) { cmpv(c, "input", e->get_input(), x, 2e-6, 1e-12); cmpv(c, "output", e->get_output(), y, 2e-6, 1e-12); }
		if (p.blank) c.count("blank_lines"); if (p.trailing) c.count("newline_at_end");
	}
	c.check("no_error", errors() == e0, "a readable file raised an error: " + why);
	if (q.blank) c.count("blank_lines"); if (q.trailing) c.count("newline_at_end"); if (q.crlf) c.count("crlf"); if (n == 1) c.count("one_line");
	c.obs(hsh(hsh(hsh(hs("load"), n), k), q.d.d), true);
}
UNIT("P02", "datasets", 300, 5000) {
	Rng &r = c.rng; MLPPData d; std::string f = scratch() + "/a.csv";
	int w = r.range(0, r.chance(0.1) ? 6 : 4); static const char *nm[] = { "load_breast_cancer", "load_breast_cancer_svc", "load_california_housing", "load_iris", "load_wine", "load_mnist_train", "load_mnist_test" };
	static const int K[] = { 30, 30, 13, 4, 4, 784, 784 }, C[] = { 0, 0, 0, 3, 3, 10, 10 };
	int n = r.range(1, 6), k = K[w]; std::string t; DM a(n, k); DV y(n);
	bool missing = r.chance(0.05);
	for (int i = 0; i < n; i++) { for (int j = 0; j < k; j++) { double v; t += num(r, v) + ","; a.at(i, j) = v; } y[i] = C[w] ? r.range(0, C[w] - 1) : r.range(-5, 5); t += strf("%g", y[i]); if (i + 1 < n || r.chance(0.5)) t += "\n"; }
	put(f, t); String P = S(missing ? scratch() + "/none" : f); c.label(nm[w]); long e0 = errors();
	RM I, O; RV V;
	if (w < 3) { Ref<MLPPDataSimple> s = w == 0 ? d.load_breast_cancer(P) : w == 1 ? d.load_breast_cancer_svc(P) : d.load_california_housing(P); if (!c.check("present", s.is_valid())) return; I = s->get_input(); V = s->get_output(); }
	else { Ref<MLPPDataComplex> s = w == 3 ? d.load_iris(P) : w == 4 ? d.load_wine(P) : w == 5 ? d.load_mnist_train(P) : d.load_mnist_test(P); if (!c.check("present", s.is_valid())) return; I = s->get_input(); O = s->get_output(); }
	if (missing) { c.check("refused", errors() > e0, "no error for a missing file"); c.check("empty", !I.is_valid() || I->size().y == 0); c.count("missing"); }
	else {
		if (c.check("samples", I->size() == Size2i(k, n), strf("%dx%d", I->size().y, I->size().x))) cmpm(c, "input", I, a, 2e-6, 1e-12);
		if (C[w]) { DM h(n, C[w]); for (int i = 0; i < n; i++) h.at(i, (int)y[i]) = 1; cmpm(c, "one_hot_output", O, h, 0, 0); } else cmpv(c, "output", V, y, 0, 0);
		c.check("no_error", errors() == e0, "a readable file raised an error");
	}
	c.count(nm[w]); c.obs(hsh(hsh(hs(nm[w]), n), y), !missing);
}
UNIT("P02", "text", 4000, 150000) {
	Rng &r = c.rng; MLPPData d; bool host = r.chance(0.6); int n = r.range(0, 9);
	std::string t = sentence(r, n, host, r.chance(0.7)); if (r.chance(0.02)) t = r.chance(0.5) ? "" : ".";
	String T = S(t); long e0 = errors();
	SV w = words(t);
	c.label("segment"); Vector<String> g = d.segment(T); same(c, "words", full(SS(g)), w, t);
	c.label("tokenize"); { Vector<int> k = d.tokenize(T); bool ok = k.size() == g.size(); std::map<std::string, int> id; for (int i = 0; ok && i < g.size(); i++) { std::string s = U(g[i]); if (!id.count(s)) { int nx = (int)id.size() + 1; id[s] = nx; } ok = k[i] == id[s]; } c.check("ids", ok, "ids of '" + t + "' are not numbered by first appearance"); }
	c.label("split_sentences"); {
		auto strip = [](const std::string &s) { std::string o; for (char q : s) if (q != ' ' && q != '.') o += q; return o; };
		SV want; std::string cur; for (size_t i = 0; i <= t.size(); i++) { if (i == t.size() || t[i] == '.') { if (i < t.size() && i + 1 < t.size() && t[i + 1] == '.') { continue; } want.push_back(strip(cur)); cur.clear(); } else cur += t[i]; }
		SV got; for (auto &s : SS(d.split_sentences(T))) got.push_back(strip(s)); same(c, "sentences", full(got), full(want), t); if (full(want).size() > 1) c.count("several_sentences");
	}
	SV st; int m = r.range(0, 3); bool def = m == 1;
	if (def) { d.load_default_stop_words(); st = DEF_STOP; same(c, "default_stop_words", SS(d.stop_words), DEF_STOP); }
	else if (m >= 2) { for (int i = r.range(0, 4); i > 0; i--) st.push_back(lower(r.pick(VOC))); d.stop_words = VS(st); }
	c.label("remove_stop_words"); SV rs = without(words(lower(t)), st); same(c, "words", full(SS(d.remove_stop_words(T))), rs, t); same(c, "stop_words_kept", SS(d.stop_words), st);
	c.label("remove_stop_words_vec"); Vector<String> lw = VS(w); same(c, "words", SS(d.remove_stop_words_vec(lw)), without(w, st), show(w)); same(c, "argument_unchanged", SS(lw), w);
	{ SV l; for (auto &q : w) l.push_back(lower(q)); Vector<String> v = VS(l); same(c, "lower_words", SS(d.remove_stop_words_vec(v)), without(l, st), show(l)); }
	// lists with empty and blank entries
	SV e; for (int i = r.range(0, 7); i > 0; i--) e.push_back(r.chance(0.45) ? "" : r.chance(0.3) ? r.pick(VOC) + " " + r.pick(VOC) : r.chance(0.1) ? " " : r.pick(VOC));
	Vector<String> E = VS(e); c.label("remove_empty"); same(c, "strings", SS(d.remove_empty(E)), full(e)); same(c, "argument_unchanged", SS(E), e);
	c.label("remove_spaces"); SV ns; for (auto &q : e) { std::string o; for (char x : q) if (x != ' ') o += x; ns.push_back(o); } same(c, "strings", SS(d.remove_spaces(E)), ns); same(c, "argument_unchanged", SS(E), e);
	c.label("toLower"); c.check("value", d.toLower(t) == lower(t)); c.label("split"); std::vector<char> ch = d.split(t); c.check("characters", std::string(ch.begin(), ch.end()) == t);
	c.label("text"); c.check("argument_unchanged", U(T) == t); c.check("no_error", errors() == e0, "'" + t + "' raised an error");
	if (host) c.count("hostile"); if (rs.size() < w.size()) c.count("stop_words_removed"); c.obs(hsh(hsh(hs(t), hs(show(st))), hs(show(e))), n > 0); if (r.chance(0.003)) c.sample(t);
}
UNIT("P02", "stemming", 2000, 60000) {
	Rng &r = c.rng; MLPPData d; d.load_default_suffixes(); long e0 = errors();
	c.label("load_default_suffixes"); same(c, "suffixes", SS(d.suffixes), DEF_SUF);
	std::string t, w; int n = r.range(1, 6); static const SV roots = { "appear", "think", "conduct", "good", "boy", "hope", "b", "zz", "kind", "act", "pay" };
	for (int i = 0; i < n; i++) {
		if (i) { static const SV sep = { " ", ", ", ". ", "! ", "-" }; const std::string &s = r.pick(sep); t += s; w += s; }
		std::string x = r.pick(roots) + (r.chance(0.7) ? r.pick(DEF_SUF) : ""); if (r.chance(0.05)) x = r.pick(DEF_SUF); std::string b = x; size_t best = 0;
		for (auto &s : DEF_SUF) if (s.size() <= x.size() && x.compare(x.size() - s.size(), s.size(), s) == 0) best = std::max(best, s.size());
		t += x; w += x.substr(0, x.size() - best); if (best) c.count("suffix_removed");
	}
	if (r.chance(0.3)) { t += "."; w += "."; }
	String T = S(t); c.label("stemming"); std::string g = U(d.stemming(T)); while (!g.empty() && g.back() == ' ') g.pop_back(); while (!w.empty() && w.back() == ' ') w.pop_back();
	c.check("words", g == w, "'" + t + "' became '" + g + "', expected '" + w + "'"); c.check("argument_unchanged", U(T) == t); c.check("no_error", errors() == e0);
	c.obs(hs(t)); if (r.chance(0.003)) c.sample(t + " -> " + w);
}
UNIT("P02", "encodings", 2500, 80000) {
	Rng &r = c.rng; MLPPData d; int n = r.range(1, 6); SV s, st; int m = r.range(0, 2);
	if (m == 1) { d.load_default_stop_words(); st = DEF_STOP; } else if (m == 2) { for (int i = r.range(1, 3); i > 0; i--) st.push_back(lower(r.pick(VOC))); d.stop_words = VS(st); }
	bool host = r.chance(0.3);
	for (int i = 0; i < n; i++) s.push_back(sentence(r, r.range(host ? 0 : 1, 7), host, r.chance(0.3)));
	Vector<String> V = VS(s); long e0 = errors(); std::string all; for (auto &q : s) all += (all.empty() ? "" : " ") + q;
	SV list = uniq(without(words(lower(all)), st)); std::vector<SV> sw; for (auto &q : s) sw.push_back(without(words(lower(q)), st));
	c.label("create_word_list"); same(c, "words", full(SS(d.create_word_list(V))), list, all);
	int k = (int)list.size(); if (!k) { c.count("no_words"); c.obs(hs(all), false); return; }
	DM cnt(n, k), bin(n, k), tf(n, k); DV df(k);
	for (int i = 0; i < n; i++) { for (auto &q : sw[i]) cnt.at(i, std::find(list.begin(), list.end(), q) - list.begin())++; for (int j = 0; j < k; j++) { bin.at(i, j) = cnt.at(i, j) > 0; df[j] += cnt.at(i, j) > 0; } }
	c.label("bag_of_words.counts"); samem(c, "value", d.bag_of_words(V, MLPPData::BAG_OF_WORDS_TYPE_DEFAULT), cnt);
	c.label("bag_of_words.binary"); samem(c, "value", d.bag_of_words(V, MLPPData::BAG_OF_WORDS_TYPE_BINARY), bin);
	if (!host) {
		for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) tf.at(i, j) = sw[i].empty() ? 0 : cnt.at(i, j) / sw[i].size() * std::log((double)n / df[j]);
		c.label("tfidf"); cmpm(c, "value", d.tfidf(V), tf, 1e-5, 1e-6);
	}
	same(c, "argument_unchanged", SS(V), s); c.check("no_error", errors() == e0, "'" + show(s) + "' raised an error");
	if (!host && r.chance(0.4)) { // latent semantic analysis: the embeddings keep the leading part of B'B
		int dim = r.range(1, std::min(n, k)); DM b = mul(tr(bin), bin); DV ev; DM vec; sym_eigen(b, ev, vec);
		bool sep = true; for (int i = 0; i < std::min(n, k) && i <= dim && i + 1 < (int)ev.size(); i++) sep = sep && std::sqrt(std::fabs(ev[i])) - std::sqrt(std::fabs(ev[i + 1])) > 0.15; sep = sep && ev[dim - 1] > 0.2;
		if (sep) {
			c.label("lsa"); RM L = d.lsa(V, dim); if (c.check("size", L.is_valid() && L->size() == Size2i(k, dim))) {
				DM l = dm(L), g = mul(tr(l), l), w(k, k); for (int q = 0; q < dim; q++) for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) w.at(i, j) += ev[q] * vec.at(i, q) * vec.at(j, q);
				bool ok = true; double worst = 0; for (size_t i = 0; i < g.d.size(); i++) { worst = std::max(worst, std::fabs(g.d[i] - w.d[i])); } ok = worst < 0.02 * (1 + ev[0]); c.check("leading_part", ok, strf("dim %d of %dx%d differs by %g", dim, n, k, worst)); c.count("lsa");
			}
		}
	}
	if (m) c.count("with_stop_words"); c.obs(hsh(hs(show(s)), hs(show(st))), true); if (r.chance(0.004)) c.sample(show(s));
}
UNIT("P02", "word_to_vec", 120, 3000) {
	Rng &r = c.rng; MLPPData d; int n = r.range(1, 3); SV s; for (int i = 0; i < n; i++) s.push_back(sentence(r, r.range(3, 6), false, false));
	SV list; { std::string all; for (auto &q : s) all += (all.empty() ? "" : " ") + q; list = uniq(words(lower(all))); } if (list.size() < 2) return;
	auto ty = r.chance(0.5) ? MLPPData::WORD_TO_VEC_TYPE_CBOW : MLPPData::WORD_TO_VEC_TYPE_SKIPGRAM; int dim = r.range(1, 4); long e0 = errors();
	c.label("word_to_vec"); MLPPData::WordsToVecResult res = d.word_to_vec(VS(s), ty, r.range(1, 3), dim, 0.05, r.range(1, 20));
	same(c, "word_list", SS(res.word_list), list);
	if (c.check("size", res.word_embeddings.is_valid() && res.word_embeddings->size() == Size2i(dim, (int)list.size()), res.word_embeddings.is_valid() ? strf("%dx%d for %d words", res.word_embeddings->size().y, res.word_embeddings->size().x, (int)list.size()) : "none")) { bool fin = true; for (double q : dm(res.word_embeddings).d) fin = fin && std::isfinite(q); c.check("finite", fin); }
	c.check("no_error", errors() == e0, "training raised an error"); c.obs(hs(show(s))); if (r.chance(0.05)) c.sample(show(s));
}
UNIT("P02", "input_names", 200, 3000) {
	Rng &r = c.rng; MLPPData d; std::string f = scratch() + "/b.txt", t; SV w; int n = r.range(0, 8); bool end = r.chance(0.5);
	for (int i = 0; i < n; i++) { w.push_back(r.chance(0.1) && i + 1 < n ? "" : sentence(r, r.range(1, 3), true, true)); t += w.back(); if (i + 1 < n || end) t += "\n"; }
	put(f, t); SV g; SV pre = r.chance(0.3) ? SV{ "old" } : SV{}; g = pre; c.label("setInputNames"); d.setInputNames(f, g); pre.insert(pre.end(), w.begin(), w.end()); same(c, "names", g, pre); c.obs(hs(t), n > 0);
}
