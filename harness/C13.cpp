// C13: merging configurations
#include "vh.hpp"
#include "core/key_value_store/compound.hpp"
#include "core/key_value_store/array.hpp"
#include "core/db/compiler.hpp"
using namespace Maike;
static std::string dump(json_t const* j)
{
	auto p = json_dumps(j, JSON_SORT_KEYS | JSON_ENCODE_ANY | JSON_COMPACT);
	std::string r{p ? p : "?"};
	free(p);
	return r;
}
static json_t* value(int depth, int kind = -1)
{
	static char const* keys[] = {"a", "b", "c", "d", "", "recipe", "k\xc3\xa9"};
	if(kind < 0) kind = int(vh::below(depth > 0 ? 8 : 6));
	switch(kind)
	{
		case 0: return json_string(vh::coin() ? "x" : "");
		case 1: return json_integer(json_int_t(vh::below(5)) - 2);
		case 2: return json_real(0.5 * double(vh::below(4)));
		case 3: return json_true();
		case 4: return json_false();
		case 5: return json_null();
		case 6:
		{
			auto a = json_array();
			for(size_t i = 0, n = vh::below(4); i < n; ++i) json_array_append_new(a, value(depth - 1));
			return a;
		}
		default:
		{
			auto o = json_object();
			for(size_t i = 0, n = vh::below(6); i < n; ++i) json_object_set_new(o, keys[vh::below(7)], value(depth - 1));
			return o;
		}
	}
}
// a value that agrees in type with x where possible, so that merges get deep
static json_t* like(json_t* x, int depth)
{
	if(json_is_object(x))
	{
		auto o = value(depth, 7);
		char const* k;
		json_t* v;
		json_object_foreach(x, k, v) if(vh::coin(2, 3)) json_object_set_new(o, k, vh::coin(14, 15) ? like(v, depth - 1) : value(depth - 1));
		json_object_foreach(o, k, v) if(auto y = json_object_get(x, k); y && json_typeof(y) != json_typeof(v) && vh::coin(9, 10)) { json_object_set_new(o, k, like(y, depth - 1)); }
		return o;
	}
	int kind = json_is_array(x) ? 6 : json_is_string(x) ? 0 : json_is_integer(x) ? 1 : json_is_real(x) ? 2 : json_is_true(x) ? 3 : json_is_false(x) ? 4 : 5;
	return value(depth, kind);
}
struct Mismatch {};
static json_t* merged(json_t const* a, json_t const* b)
{
	auto r = json_deep_copy(a);
	char const* k;
	json_t* v;
	json_object_foreach(const_cast<json_t*>(b), k, v)
	{
		auto o = json_object_get(a, k);
		if(!o) { json_object_set_new(r, k, json_deep_copy(v)); continue; }
		if(json_typeof(o) != json_typeof(v)) { throw Mismatch{}; }
		if(json_is_array(o))
		{
			auto x = json_deep_copy(o);
			size_t i;
			json_t* e;
			json_array_foreach(v, i, e) json_array_append_new(x, json_deep_copy(e));
			json_object_set_new(r, k, x);
		}
		else if(json_is_object(o)) json_object_set_new(r, k, merged(o, v));
		else json_object_set_new(r, k, json_deep_copy(v));
	}
	return r;
}
using C = KeyValueStore::Compound;
static C compound(json_t const* j) { return C{KeyValueStore::CompoundRefConst{KeyValueStore::JsonRefConst{j, "harness"}}}; }
static std::string dump(C const& c) { return dump(c.handleReference().handle()); }

int main()
{
	vh::init("random configurations nested up to 3 deep over 7 keys, mostly agreeing in type; merged with |=, | and as compiler settings; non-trivial: both sides share a key");
	for(int i = 0; i < (vh::thorough ? 1000000 : 60000) && vh::more(); ++i)
	{
		auto a = value(3, 7), b = vh::coin(5, 6) ? like(a, 3) : value(3, 7);
		auto da = dump(a), db = dump(b);
		bool shared = false;
		{ char const* k; json_t* v; json_object_foreach(b, k, v) shared = shared || json_object_get(a, k); }
		vh::begin("a = " + da + " b = " + db, shared);
		std::string want;
		try { auto m = merged(a, b); want = dump(m); json_decref(m); } catch(Mismatch) { want = "error"; }
		auto run = [&](int how) -> std::string {
			C ca = compound(a), cb = compound(b);
			std::string r;
			try
			{
				if(how == 0) { auto& x = (ca |= cb); if(&x != &ca) return "|= returns another object"; r = dump(ca); }
				else if(how == 1) { ca |= cb.reference(); r = dump(ca); }
				else if(how == 2) { r = dump(C{ca} | cb.reference()); if(dump(ca) != da) return "the left operand of | was changed"; }
				else
				{
					char const* rec[] = {"", "r1", "r2"};
					auto ra = rec[vh::below(3)], rb = rec[vh::below(3)];
					bool ga = vh::coin(), gb = vh::coin();
					std::optional<Db::SourceFileOrigin> oa, ob;
					if(vh::coin()) oa = Db::SourceFileOrigin::Project;
					if(vh::coin()) ob = Db::SourceFileOrigin::System;
					Db::Compiler x{fs::path{ra}, oa, C{ca}, ga}, y{fs::path{rb}, ob, C{cb}, gb};
					auto m = x | y;
					r = dump(m.config());
					if(m.recipe() != (*rb ? rb : ra)) return "recipe " + m.recipe().string() + " from " + ra + " and " + rb;
					if(dump(x.config()) != da || dump(y.config()) != db || x.recipe() != ra || y.recipe() != rb) return "an operand was changed";
				}
			}
			catch(std::exception const&) { r = "error"; }
			if(dump(cb) != db) return "b was changed to " + dump(cb);
			return r;
		};
		for(int how = 0; how < 4; ++how)
		{
			auto g = run(how);
			if(!vh::expect(g == want, "merge " + std::to_string(how) + " gives " + g + ", expected " + want)) break;
		}
		// the merged value is independent of its operands
		json_decref(a);
		json_decref(b);
	}
	return vh::done();
}
