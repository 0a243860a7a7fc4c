// C25: scanning a source tree finds every file that is not filtered out
// flags: -fsanitize=thread
#include "vh.hpp"
#include "core/source_tree_loader/directory_scanner.hpp"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/loader.hpp"
#include <regex>
#include <set>
using namespace Maike;
using namespace Maike::SourceTreeLoader;
struct Node { std::string name; bool dir; std::vector<Node> sub; std::string content; };
static Node gen(int depth)
{
	static char const* names[] = {"a", "b.cpp", "core", ".git", "__t", "x.hpp", "skip", "sp ace", "src", "a.b.c", "q__", "Z", "readme.txt", "\xc3\xa5", "..x"};
	Node d{"", true, {}, ""};
	std::set<std::string> used;
	for(size_t n = vh::below(6); n; --n)
	{
		std::string nm = names[vh::below(15)];
		if(!used.insert(nm).second) continue;
		if(depth > 0 && vh::coin(2, 5)) { auto c = gen(depth - 1); c.name = nm; d.sub.push_back(c); }
		else d.sub.push_back(Node{nm, false, {}, vh::coin() ? "int x;\n" : ""});
	}
	return d;
}
static std::string base_dir;
static int links = 0;
static void write(Node const& d, fs::path const& at)
{
	fs::create_directories(at);
	for(auto const& c : d.sub)
		if(c.dir && c.name == "q__")
		{
			// a directory behind a symbolic link is one, too
			auto real = fs::absolute(fs::path{base_dir} / ("linked" + std::to_string(++links)));
			write(c, real);
			fs::create_directory_symlink(real, at / c.name);
		}
		else if(c.dir) write(c, at / c.name);
		else { auto fd = open((at / c.name).c_str(), O_CREAT | O_WRONLY, 0600); unsigned(::write(fd, c.content.data(), c.content.size())); close(fd); }
}
static bool hit(std::vector<std::string> const& fl, std::string const& s)
{
	for(auto const& f : fl) if(std::regex_search(s, std::regex{f, std::regex_constants::basic})) return true;
	return false;
}
static void want(Node const& d, std::string const& root, std::string const& rel, std::vector<std::string> const& ff, std::vector<std::string> const& pf, bool rec, std::map<std::string, bool>& out, bool& bad)
{
	for(auto const& c : d.sub)
	{
		if(c.dir && !rec) continue;
		auto r = rel + c.name;
		if(hit(ff, c.name) || hit(pf, r)) continue;
		out[(fs::path{root} / r).lexically_normal().string()] = c.dir;
		if(c.dir) want(c, root, r + "/", ff, pf, rec, out, bad);
		else if(c.content == "//@ {\"broken\":") bad = true;
	}
}
static void spoil(Node& d, int& k)
{
	for(auto& c : d.sub)
		if(c.dir) spoil(c, k);
		else if(c.name == "b.cpp" && k-- == 0) c.content = "//@ {\"broken\":";
}
int main()
{
	vh::init("random trees of up to 4 levels, 5 entries each, roots spelled in 9 ways, sets of up to 3 file and path filters, recursive or not, 1 to 4 workers; some with a file that cannot be loaded; non-trivial: more than the root is found");
	static char const* filters[] = {"^\\.", "^__", "skip", "^core$", "\\.hpp$", "a", "^Z"};
	static char const* pfilters[] = {"^core/", "core/src", "^src$", "skip", "/b\\.cpp$", "^a/Z", "^\\.\\."};
	for(int it = 0; it < (vh::thorough ? 20000 : 1500) && (vh::more() || it < 80); ++it)
	{
		auto base = fs::path{vh::dir} / ("t" + std::to_string(it));
		auto tree = gen(3);
		int k = int(vh::below(3));
		if(vh::coin(1, 4)) spoil(tree, k);
		fs::create_directories(base);
		if(chdir(base.c_str())) return 1;
		base_dir = (fs::path{vh::dir} / ("x" + std::to_string(it))).string();
		static char const* roots[] = {"src", "./src", ".", "p/src", "./p/../p/src", "src/.", "src/", "p//src", "ABS"};
		std::string root = roots[vh::below(9)];
		if(root == "ABS") root = (base / "src").string();
		write(tree, root);
		std::vector<std::string> ff, pf;
		for(size_t n = vh::below(4); n; --n) ff.push_back(filters[vh::below(7)]);
		for(size_t n = vh::below(3); n; --n) pf.push_back(pfilters[vh::below(7)]);
		bool rec = vh::coin(4, 5);
		std::map<std::string, bool> exp;
		auto strip = [](fs::path p) { auto s = p.lexically_normal().string(); while(s.size() > 1 && s.back() == '/') s.pop_back(); return s; };
		exp[strip(root)] = true;
		bool bad = false;
		want(tree, root, "", ff, pf, rec, exp, bad);
		std::string text = "root " + vh::show(root) + (rec ? ", recursive" : ", not recursive") + ", file filters";
		for(auto& f : ff) text += " " + f;
		text += ", path filters";
		for(auto& f : pf) text += " " + f;
		text += ", tree";
		std::function<void(Node const&, std::string)> show = [&](Node const& d, std::string p) { for(auto& c : d.sub) { text += " " + p + c.name + (c.dir ? "/" : ""); if(c.dir) show(c, p + c.name + "/"); } };
		show(tree, "");
		vh::begin(text + (bad ? ", with a file that cannot be loaded" : ""), exp.size() > 1);
		InputFilter f1, f2;
		f1.source(std::vector<std::string>{ff});
		f2.source(std::vector<std::string>{pf});
		CommandDictionary cmds;
		Db::Compiler dc{fs::path{"mkdir.py"}, false};
		SourceFileInfoLoaders::Loader cxx{::Cxx::SourceFileLoader{}, Db::Compiler{fs::path{}, false}};
		SourceFileLoaderDelegator dl{std::ref(cmds), std::ref(dc)};
		dl.loaders(SourceFileLoaderDelegator::LoaderMap{{".cpp", std::ref(cxx)}});
		std::map<std::string, bool> got;
		bool failed = false;
		std::string why;
		try
		{
			Sched::ThreadPool pool{ThreadCount{std::to_string(1 + vh::below(4)).c_str()}};
			DirectoryScanner sc{pool, std::ref(f1), std::ref(f2), std::ref(dl), RecursiveScan{rec}};
			auto files = sc.processPath(fs::path{root}, fs::path{"out"}).takeResult();
			for(auto const& x : files)
			{
				auto s = x.first.string();
				vh::expect(x.first.lexically_normal().native() == s, "recorded under a name that is not normalised: " + vh::show(s));
				got[strip(x.first)] = is_directory(x.first);
			}
			vh::expect(got.size() == files.size(), "recorded twice");
		}
		catch(DirectoryScanner::ScanException const& e) { failed = true; why = e.what(); }
		if(bad) vh::expect(failed && !why.empty(), "no error");
		else if(!vh::expect(!failed, "fails: " + why)) {}
		else if(got != exp)
		{
			std::string d;
			for(auto& x : exp) if(!got.count(x.first)) d += " missing " + vh::show(x.first);
			for(auto& x : got) if(!exp.count(x.first)) d += " too many " + vh::show(x.first);
			vh::fail("found:" + d);
		}
		if(chdir(vh::dir.c_str())) return 1;
		fs::remove_all(base);
		fs::remove_all(base_dir);
	}
	return vh::done();
}
