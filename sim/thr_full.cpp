// Scenarios on shared objects of the compiler itself: the registry of languages. Real code, linked
// with the whole system; the registry's unit and everything in headers is instrumented.
#include <compile.h>
#include <lang_cs.h>
#include <lang_lq.h>
#include <vector>
#include "thrsim.h"

using namespace X_ROOT_NS;
using namespace X_ROOT_NS::modules;
using namespace X_ROOT_NS::modules::compile;
namespace al = X_ROOT_NS::algorithm;
using vs::quiet_t;
typedef unsigned long long u64;

static const char_t * const names[] = {
    _T("n0"), _T("n1"), _T("n2"), _T("n3"), _T("n4"), _T("n5"), _T("n6"), _T("n7"), _T("n8"), _T("n9"),
    _T("na"), _T("nb"), _T("nc"), _T("nd"), _T("ne"), _T("nf"), _T("ng"), _T("nh"), _T("ni"), _T("nj") };
enum { NNAME = 20 };

struct own_lang_t : public lang_t, public object_t
{
    lang_id_t id;
    int tag;
    own_lang_t(lang_id_t id, int tag) : id(id), tag(tag) { }
    virtual lang_service_t * get_service(lang_service_type_t) override { return nullptr; }
    virtual lang_id_t get_id() override { return id; }
    virtual const lang_info_t * get_info() override { return nullptr; }
    X_TO_STRING_IMPL(_T("own_lang_t"))
};

struct own_creator_t : public lang_creator_t
{
    int tag = -1;
    virtual lang_t * create(memory_t * memory, const lang_create_args_t & args) override
    {
        return memory_t::new_obj<own_lang_t>(memory, args.lang_id, tag);
    }
    virtual void destory(memory_t *, lang_t *) override { }
};

static simple_lang_factory_t * fac;
static own_creator_t creators[NNAME];
static struct { int state; lang_id_t id; bool own; } reg[NNAME];      // state: 0 no, 1 under way, 2 done, 3 failed
static int next_name;

static void look(vs::rng_t & r, bool faults)
{
    int k = (int)r.below(NNAME);
    int before, after;
    { quiet_t q; before = reg[k].state; }
    lang_id_t id = fac->get_lang_id(names[k]);
    quiet_t q;
    after = reg[k].state;
    if (id == unknown_lang_id)
    {
        vs::check(before != 2, "lookup: a registered language is not found by its name");
        return;
    }
    vs::check(after != 0, "lookup: a language nobody registered was found");
    for (int j = 0; j < NNAME; j++)
        vs::check(j == k || reg[j].state != 2 || reg[j].id != id, "ids: two languages share the id %u", (unsigned)id);
    if (after == 2)
        vs::check(id == reg[k].id, "lookup: the name has id %u, its registration returned %u", (unsigned)id, (unsigned)reg[k].id);
    vs::probe(1);
}

static void use(vs::rng_t & r)
{
    int k;
    lang_id_t id;
    bool own;
    {
        quiet_t q;
        std::vector<int> done;
        for (int i = 0; i < NNAME; i++) if (reg[i].state == 2) done.push_back(i);
        if (done.empty()) return;
        k = done[r.below(done.size())];
        id = reg[k].id;
        own = reg[k].own;
    }
    string_t name = fac->get_lang_name(id);
    {
        quiet_t q;
        vs::check(name == names[k], "names: the id a registration returned has another name");
    }
    al::xheap_t heap;
    lang_t * l = fac->create_lang(&heap, lang_create_args_t { id });
    quiet_t q;
    vs::check(l != nullptr && l->get_id() == id, "create: the created language has another id");
    if (own)
        vs::check(((own_lang_t *)l)->tag == k, "create: the language was made by another registration's creator");
    vs::probe(2);
}

static void registry(vs::rng_t & w, bool faults)
{
    fac = new simple_lang_factory_t();
    int threads = 2 + (int)w.below(4);
    int ops = 2 + (int)w.below(6);
    for (int t = 0; t < threads; t++)
    {
        u64 seed = w.next();
        vs::spawn([=] {
            vs::rng_t r(seed);
            for (int i = 0; i < ops; i++)
            {
                int what = (int)r.below(6);
                try
                {
                    if (what < 3)
                    {
                        int k;
                        {
                            quiet_t q;
                            if (next_name >= NNAME) continue;
                            k = next_name++;
                            reg[k].state = 1;
                            reg[k].own = what == 0;
                            creators[k].tag = k;
                        }
                        lang_id_t id;
                        try
                        {
                            id = what == 0 ? fac->register_lang(names[k], &creators[k]) :
                                 what == 1 ? fac->register_lang_t<lang_lq::lq_lang_t>(names[k]) : fac->register_lang_t<lang_cs::cs_lang_t>(names[k]);
                        }
                        catch (const std::bad_alloc &)
                        {
                            quiet_t q;
                            reg[k].state = 3;
                            throw;
                        }
                        quiet_t q;
                        vs::check(id != unknown_lang_id, "ids: a registration returned the id that means unknown");
                        for (int j = 0; j < NNAME; j++)
                            vs::check(j == k || reg[j].state != 2 || reg[j].id != id, "ids: two languages share the id %u", (unsigned)id);
                        reg[k].id = id;
                        reg[k].state = 2;
                    }
                    else if (what < 5)
                        look(r, faults);
                    else
                        use(r);
                }
                catch (const std::bad_alloc &)
                {
                    quiet_t q;
                    vs::check(faults && vs::alloc_failed_in_this_run(), "bad_alloc: without a failed allocation");
                    vs::probe(3);
                }
            }
        });
    }
    vs::start_and_join();
    for (int k = 0; k < NNAME; k++)
    {
        lang_id_t id = fac->get_lang_id(names[k]);
        if (reg[k].state == 2)
        {
            vs::check(id == reg[k].id, "lookup: after all registrations a name has id %u, its registration returned %u", (unsigned)id, (unsigned)reg[k].id);
            vs::check(fac->get_lang_name(id) == names[k], "names: after all registrations an id has another name");
        }
        else if (reg[k].state == 0)
            vs::check(id == unknown_lang_id, "lookup: a language nobody registered was found");
    }
    // a name that is registered again means the new language, the old one keeps its id
    for (int k = 0; k < NNAME; k++)
    {
        if (reg[k].state != 2 || faults || !w.one_in(3)) continue;
        creators[k].tag = k;
        lang_id_t id = fac->register_lang(names[k], &creators[k]);
        vs::check(id != reg[k].id && fac->get_lang_id(names[k]) == id, "lookup: a name that was registered again does not mean the new language");
        vs::check(fac->get_lang_name(id) == names[k] && fac->get_lang_name(reg[k].id) == names[k], "names: an id lost its name");
    }
    delete fac;
}
static void run_registry(vs::rng_t & w) { registry(w, false); }
static void run_registry_mem(vs::rng_t & w) { registry(w, true); }

const vs::scenario_t vs::scenarios[] = {
    { "registry", run_registry, false },
    { "registry_mem", run_registry_mem, true },
};
const int vs::scenario_count = sizeof(vs::scenarios) / sizeof(vs::scenarios[0]);
