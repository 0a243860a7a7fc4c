// C26: the compile command names all targets, all dependencies and the merged settings
#include "vh.hpp"
#include "core/db/source_file_record.hpp"
#include "core/db/task.hpp"
#include <jansson.h>
#include <map>
using namespace Maike;
using namespace Maike::Db;
using O = SourceFileOrigin;
static std::string word()
{
	static char const* ws[] = {"a", "core/x.cpp", "sp ace", "q\"uote", "back\\slash", "nl\n", "\xc3\xa5/b", "x.o", "./y", "main", "tab\t", "'", "d/e/f.hpp", "\x01", "/abs/p"};
	return std::string{ws[vh::below(15)]} + std::to_string(vh::below(30));
}
struct Val { int kind = 0; std::string s; std::map<std::string, Val> o; std::vector<Val> a; bool operator==(Val const& v) const { return kind == v.kind && s == v.s && o == v.o && a == v.a; } };
static Val gen(int d)
{
	Val v;
	v.kind = int(d ? vh::below(4) : vh::below(2));
	if(v.kind == 0) v.s = std::to_string(vh::below(50));
	if(v.kind == 1) v.s = word();
	if(v.kind == 2) for(size_t n = vh::below(3); n; --n) v.a.push_back(gen(d - 1));
	if(v.kind == 3) for(size_t n = vh::below(4); n; --n) { auto k = std::string{char('a' + vh::below(5))}; v.o[k] = gen(d - 1); }
	return v;
}
static Val obj(int d) { Val v = gen(d); while(v.kind != 3) v = gen(d); return v; }
static json_t* mk(Val const& v)
{
	if(v.kind == 0) return json_integer(atoll(v.s.c_str()));
	if(v.kind == 1) return json_string(v.s.c_str());
	if(v.kind == 2) { auto r = json_array(); for(auto& x : v.a) json_array_append_new(r, mk(x)); return r; }
	auto r = json_object();
	for(auto& x : v.o) json_object_set_new(r, x.first.c_str(), mk(x.second));
	return r;
}
static Val rd(json_t const* j)
{
	Val v;
	if(json_is_integer(j)) { v.kind = 0; v.s = std::to_string(json_integer_value(j)); }
	else if(json_is_string(j)) { v.kind = 1; v.s = json_string_value(j); }
	else if(json_is_array(j)) { v.kind = 2; for(size_t k = 0; k < json_array_size(j); ++k) v.a.push_back(rd(json_array_get(j, k))); }
	else if(json_is_object(j)) { v.kind = 3; char const* k; json_t* x; json_object_foreach(const_cast<json_t*>(j), k, x) v.o[k] = rd(x); }
	else v.kind = 9;
	return v;
}
static bool merge(Val& a, Val const& b)
{
	for(auto& x : b.o)
	{
		auto i = a.o.find(x.first);
		if(i == a.o.end()) { a.o[x.first] = x.second; continue; }
		if(i->second.kind != x.second.kind) return false;
		if(x.second.kind == 2) i->second.a.insert(i->second.a.end(), x.second.a.begin(), x.second.a.end());
		else if(x.second.kind == 3) { if(!merge(i->second, x.second)) return false; }
		else i->second = x.second;
	}
	return true;
}
static std::string dump(Val const& v) { auto j = mk(v); auto s = json_dumps(j, JSON_SORT_KEYS); std::string r{s}; free(s); json_decref(j); return r; }
static KeyValueStore::Compound comp(Val const& v)
{
	auto j = mk(v);
	KeyValueStore::Compound r{KeyValueStore::CompoundRefConst{KeyValueStore::JsonRefConst{j, "harness"}}};
	json_decref(j);
	return r;
}
int main()
{
	vh::init("records with up to 5 targets, up to 6 dependencies with up to 3 properties, with and without loader defaults, settings up to 2 levels deep, names with quotes, backslashes, blanks, newlines and UTF-8; non-trivial: all");
	for(int it = 0; it < (vh::thorough ? 200000 : 8000) && (vh::more() || it < 500); ++it)
	{
		bool def = vh::coin(2, 3);
		auto ca = obj(2), cb = obj(2);
		for(int k = 0; k < 20; ++k) { auto t = ca; if(merge(t, cb)) break; cb = obj(2); }
		auto m = ca;
		bool mergeable = merge(m, cb);
		std::string ra = vh::coin() ? "" : word(), rb = vh::coin() ? "" : word(), path = word();
		if(vh::coin(1, 4)) path = "plain" + std::to_string(vh::below(5));
		std::vector<TargetInfo> ts;
		std::vector<std::string> tn;
		for(size_t n = vh::below(6); n; --n) { tn.push_back(vh::coin(1, 8) ? path : vh::coin(1, 8) && tn.size() ? tn[0] : word()); ts.push_back(TargetInfo{fs::path{tn.back()}, std::vector<Dependency>{}}); }
		std::vector<Dependency> ds;
		std::vector<Val> dv;
		O os[] = {O::Project, O::Generated, O::System, O::PkgConfig};
		for(size_t n = vh::below(7); n; --n)
		{
			auto nm = vh::coin(1, 8) ? path : vh::coin(1, 8) && tn.size() ? tn[vh::below(tn.size())] : vh::coin(1, 8) && ds.size() ? ds[0].name().string() : word();
			auto o = os[vh::below(4)];
			std::vector<Property> ps;
			Val v;
			v.kind = 3;
			v.o["ref"] = Val{1, nm, {}, {}};
			v.o["origin"] = Val{1, toString(o), {}, {}};
			static char const* pn[] = {"rel", "x", "y"};
			for(size_t k = vh::below(4); k; --k) { auto w = vh::coin(1, 5) ? std::string{} : word(); ps.push_back(Property{std::string{pn[k - 1]}, std::string{w}}); v.o[pn[k - 1]] = Val{1, w, {}, {}}; }
			ds.push_back(Dependency{fs::path{nm}, o, std::move(ps)});
			dv.push_back(v);
		}
		auto text = "source file " + vh::show(path) + (def ? ", defaults recipe " + vh::show(ra) + " settings " + dump(ca) : std::string{", no defaults"}) + ", own recipe " + vh::show(rb) + " settings " + dump(cb) + ", targets";
		for(auto& x : tn) text += " " + vh::show(x);
		text += ", dependencies";
		for(auto& x : dv) text += " " + dump(x);
		vh::begin(text);
		Compiler a{fs::path{ra}, comp(ca), false};
		auto info = def ? SourceFileInfo{std::move(ts), std::ref(a), Compiler{fs::path{rb}, comp(cb), false}, O::Project, RebuildPolicy::OnlyIfOutOfDate}
		                : SourceFileInfo{O::Project, Compiler{fs::path{rb}, comp(cb), false}};
		if(!def) tn.clear();
		fs::path p{path};
		SourceFileRecordConst rec{SourceFileId{42}, std::ref(p), std::ref(info)};
		Build::Info bi;
		bi.sourceDir(fs::path{"s d"}).targetDir(fs::path{"t\"d"});
		try
		{
			auto cmd = makeBuildCommand(rec, bi, ds, it % 2 ? LogFormat::PlainText : LogFormat::AnsiTerm);
			vh::expect(!def || mergeable, "settings of different types were merged");
			auto recipe = def ? (rb.empty() ? ra : rb) : rb;
			if(recipe.empty()) recipe = p.parent_path().empty() ? "./" + path : path;
			vh::expect(cmd.executable.native() == recipe, "runs " + vh::show(cmd.executable.string()) + " instead of " + vh::show(recipe));
			if(!vh::expect(cmd.args.size() == 2 && cmd.args[0] == "compile", "other arguments")) continue;
			json_error_t e;
			auto j = json_loads(cmd.args[1].c_str(), JSON_REJECT_DUPLICATES, &e);
			if(!vh::expect(j && json_is_object(j), "the description is not a JSON object")) continue;
			auto v = rd(j);
			json_decref(j);
			vh::expect(v.o["source_file"] == Val{1, path, {}, {}}, "other source file");
			Val t;
			t.kind = 2;
			for(auto& x : tn) t.a.push_back(Val{1, x, {}, {}});
			vh::expect(v.o["targets"] == t, "targets are " + dump(v.o["targets"]));
			Val d;
			d.kind = 2;
			d.a = dv;
			vh::expect(v.o["dependencies"] == d, "dependencies are " + dump(v.o["dependencies"]));
			vh::expect(v.o["compiler_cfg"] == (def ? m : cb), "settings are " + dump(v.o["compiler_cfg"]));
			vh::expect(v.o["task_id"] == Val{0, "42", {}, {}}, "other task id");
			vh::expect(v.o["build_info"].o["build_id"].s == toString(bi.buildId()) && v.o["build_info"].o["source_dir"].s == "s d" && v.o["build_info"].o["target_dir"].s == "t\"d", "other build information");
			vh::expect(v.o["log_format"].s == toString(it % 2 ? LogFormat::PlainText : LogFormat::AnsiTerm), "other log format");
			vh::expect(rd(info.compiler().config().reference().handle().handle()) == cb && rd(a.config().reference().handle().handle()) == ca, "the settings themselves were changed");
		}
		catch(std::exception const& e) { vh::expect(def && !mergeable, std::string{"fails: "} + e.what()); }
	}
	return vh::done();
}
