// Contracts of data sets, dictionaries and lists (P27) and of the settings check (P29).
#include "vp.h"
#include "settings.h"
#include "queso/utilities/check_dictionary_utilities.hpp"
using namespace queso;
typedef MainDictionaryType D; typedef DictionaryStringAccess<D> A;
template<typename F> static bool throws(F f) { try { f(); } catch (std::exception&) { return true; } return false; }
static bool same(const PointType& a, const PointType& b) { return vp_and(a[0] == b[0], vp_and(a[1] == b[1], a[2] == b[2])); }
static bool same(const Vector3i& a, const Vector3i& b) { return vp_and(a[0] == b[0], vp_and(a[1] == b[1], a[2] == b[2])); }
template<typename T> static bool same(const T& a, const T& b) { return a == b; }
static const char* S[6] = {"", "a", "b with blanks", "some_longer_text_that_needs_the_heap", "path/to/file.stl", "0"};
// ghost copy of a data set: what must be stored under each key
struct Model {
    enum Kind { none, pt, vi, bo, db, ix, st, im, gt };
    Kind k[8]; PointType p[8]; Vector3i v[8]; bool b[8]; double d[8]; IndexType i[8]; int s[8]; IntegrationMethod m[8]; GridType g[8];
    Model() { for (auto& x : k) x = none; }
};
template<typename T> static bool rejectsRead(const D& dict, const char* n) { return throws([&] { (void)A::GetValue<T>(dict, n); }); }
static void check(const D& dict, const char* n, const Model& m, int i) {
    vp_ensure("is-set-iff-set", A::IsSet(dict, n) == (m.k[i] != Model::none));
    vp_ensure("wrong-type-or-unset-read-rejected", rejectsRead<PointType>(dict, n) == (m.k[i] != Model::pt) && rejectsRead<Vector3i>(dict, n) == (m.k[i] != Model::vi)
        && rejectsRead<bool>(dict, n) == (m.k[i] != Model::bo) && rejectsRead<double>(dict, n) == (m.k[i] != Model::db) && rejectsRead<IndexType>(dict, n) == (m.k[i] != Model::ix)
        && rejectsRead<std::string>(dict, n) == (m.k[i] != Model::st) && rejectsRead<IntegrationMethod>(dict, n) == (m.k[i] != Model::im) && rejectsRead<GridType>(dict, n) == (m.k[i] != Model::gt));
    switch (m.k[i]) {
        case Model::none: break;
        case Model::pt: vp_ensure("read-returns-stored", same(A::GetValue<PointType>(dict, n), m.p[i])); break;
        case Model::vi: vp_ensure("read-returns-stored", same(A::GetValue<Vector3i>(dict, n), m.v[i])); break;
        case Model::bo: vp_ensure("read-returns-stored", A::GetValue<bool>(dict, n) == m.b[i]); break;
        case Model::db: vp_ensure("read-returns-stored", A::GetValue<double>(dict, n) == m.d[i]); break;
        case Model::ix: vp_ensure("read-returns-stored", A::GetValue<IndexType>(dict, n) == m.i[i]); break;
        case Model::st: vp_ensure("read-returns-stored", A::GetValue<std::string>(dict, n) == S[m.s[i]]); break;
        case Model::im: vp_ensure("read-returns-stored", A::GetValue<IntegrationMethod>(dict, n) == m.m[i]); break;
        case Model::gt: vp_ensure("read-returns-stored", A::GetValue<GridType>(dict, n) == m.g[i]); break;
    }
}
static const char* CN[7] = {"condition_id", "condition_type", "input_filename", "modulus", "direction", "value", "penalty_factor"};
static const Model::Kind CK[7] = {Model::ix, Model::st, Model::st, Model::db, Model::pt, Model::pt, Model::db};
static const char* names3[4][3] = {{"x0","y0","z0"},{"x1","y1","z1"},{"x2","y2","z2"},{"x3","y3","z3"}};
static const char* ints3[4][3] = {{"i0","j0","k0"},{"i1","j1","k1"},{"i2","j2","k2"},{"i3","j3","k3"}};
// typed write by compile-time key of the condition settings
static void writeTyped(D& d, Model& m, int key, int step) {
    m.k[key] = CK[key];
    switch (CK[key]) {
        case Model::ix: m.i[key] = vp::idx(ints3[step][0], 0, 1000000); break;
        case Model::st: m.s[key] = 1 + step; break;
        case Model::db: m.d[key] = vp::real(names3[step][0]); break;
        default: m.p[key] = vp::point(names3[step][0], names3[step][1], names3[step][2]);
    }
    switch (key) {
        case 0: d.SetValue(ConditionSettings::condition_id, m.i[0]); break;
        case 1: d.SetValue(ConditionSettings::condition_type, std::string(S[m.s[1]])); break;
        case 2: d.SetValue(ConditionSettings::input_filename, std::string(S[m.s[2]])); break;
        case 3: d.SetValue(ConditionSettings::modulus, m.d[3]); break;
        case 4: d.SetValue(ConditionSettings::direction, m.p[4]); break;
        case 5: d.SetValue(ConditionSettings::value, m.p[5]); break;
        case 6: d.SetValue(ConditionSettings::penalty_factor, m.d[6]); break;
    }
}
static void writeString(D& d, Model& m, int key, int step) {
    m.k[key] = CK[key];
    switch (CK[key]) {
        case Model::ix: m.i[key] = vp::idx(ints3[step][0], 0, 1000000); A::SetValue(d, CN[key], m.i[key]); break;
        case Model::st: m.s[key] = 1 + step; A::SetValue(d, CN[key], std::string(S[m.s[key]])); break;
        case Model::db: m.d[key] = vp::real(names3[step][0]); A::SetValue(d, CN[key], m.d[key]); break;
        default: m.p[key] = vp::point(names3[step][0], names3[step][1], names3[step][2]); A::SetValue(d, CN[key], m.p[key]);
    }
}
template<typename O> static bool optIs(const O& o, bool set) { return o.has_value() == set; }
static void checkTyped(const D& d, const Model& m) {
    vp_ensure("typed-is-set", d.IsSet(ConditionSettings::condition_id) == (m.k[0] != Model::none) && d.IsSet(ConditionSettings::condition_type) == (m.k[1] != Model::none)
        && d.IsSet(ConditionSettings::input_filename) == (m.k[2] != Model::none) && d.IsSet(ConditionSettings::modulus) == (m.k[3] != Model::none)
        && d.IsSet(ConditionSettings::direction) == (m.k[4] != Model::none) && d.IsSet(ConditionSettings::value) == (m.k[5] != Model::none) && d.IsSet(ConditionSettings::penalty_factor) == (m.k[6] != Model::none));
    auto t = d.TryGetValue<std::string>(ConditionSettings::condition_type); auto mo = d.TryGetValue<double>(ConditionSettings::modulus);
    auto di = d.TryGetValue<PointType>(ConditionSettings::direction); auto va = d.TryGetValue<PointType>(ConditionSettings::value); auto pe = d.TryGetValue<double>(ConditionSettings::penalty_factor);
    vp_ensure("optional-present-iff-set", optIs(t, m.k[1] != Model::none) && optIs(mo, m.k[3] != Model::none) && optIs(di, m.k[4] != Model::none) && optIs(va, m.k[5] != Model::none) && optIs(pe, m.k[6] != Model::none));
    if (t) vp_ensure("optional-returns-stored", t->get() == S[m.s[1]]);
    if (mo) vp_ensure("optional-returns-stored", mo->get() == m.d[3]);
    if (di) vp_ensure("optional-returns-stored", same(di->get(), m.p[4]));
    if (va) vp_ensure("optional-returns-stored", same(va->get(), m.p[5]));
    if (pe) vp_ensure("optional-returns-stored", pe->get() == m.d[6]);
}

static void writes(int steps) {
    auto p = factories::CreateConditionSettings(); auto q = factories::CreateConditionSettings();
    D& d = *p; Model m;
    const bool typed = vp_case("typed", 0, 1);
    for (int s = 0; s < steps; ++s) {
        const int key = (int)vp_case(s == 0 ? "first" : s == 1 ? "second" : "third", 0, 6);
        if (typed == (s != 1)) writeTyped(d, m, key, s); else writeString(d, m, key, s);
        if (s == steps - 1) { for (int i = 0; i < 7; ++i) check(d, CN[i], m, i); checkTyped(d, m); }
    }
    for (int i = 0; i < 7; ++i) vp_ensure("other-dictionary-untouched", !A::IsSet(*q, CN[i]));
    // required entries: condition_id and input_filename
    const bool complete = m.k[0] != Model::none && m.k[2] != Model::none;
    vp_ensure("required-read-before-check-rejected", throws([&] { (void)d.GetRequiredValue<IndexType>(ConditionSettings::condition_id); }));
    vp_ensure("required-check-iff-complete", throws([&] { d.CheckRequired(); }) == !complete);
    if (complete) vp_ensure("required-read", d.GetRequiredValue<IndexType>(ConditionSettings::condition_id) == m.i[0] && d.GetRequiredValue<std::string>(ConditionSettings::input_filename) == S[m.s[2]]);
    for (int i = 0; i < 7; ++i) check(d, CN[i], m, i);
}
//@harness H_dict_writes property=P27
VP_HARNESS(H_dict_writes) { writes(2); }
//@harness H_dict_writes3 property=P27 tier=thorough
VP_HARNESS(H_dict_writes3) { writes(3); }

static const char* GN[7] = {"grid_type", "lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw", "polynomial_order", "number_of_elements"};
// one dictionary with a key of every value type, read through a common index
static const char* TN[9] = {"grid_type", "lower_bound_xyz", "upper_bound_xyz", "lower_bound_uvw", "upper_bound_uvw", "polynomial_order", "number_of_elements", nullptr, nullptr};
static const Model::Kind TK[7] = {Model::gt, Model::pt, Model::pt, Model::pt, Model::pt, Model::vi, Model::vi};
// write of every offered type to a key of every type: accepted exactly by the conversion table, otherwise nothing changes
template<typename SETUP> static void wrongType(D& d, const char* const* n, const Model::Kind* kinds, int cnt, Model& m, SETUP setup) {
    setup();
    const int key = (int)vp_case("key", 0, cnt - 1), off = (int)vp_case("offered", 0, 9);
    const Model::Kind target = kinds[key];
    bool ok = false, thrown = false; const char* nm = n[key];
    switch (off) {
        case 0: { auto v = vp::point("x","y","z"); ok = target == Model::pt; thrown = throws([&] { A::SetValue(d, nm, v); }); if (ok) { m.k[key] = Model::pt; m.p[key] = v; } break; }
        case 1: { Vector3i v{vp::idx("i",0,1000), vp::idx("j",0,1000), vp::idx("k",0,1000)}; ok = target == Model::pt || target == Model::vi; thrown = throws([&] { A::SetValue(d, nm, v); });
                  if (target == Model::pt) { m.k[key] = Model::pt; m.p[key] = {(double)v[0], (double)v[1], (double)v[2]}; } else if (ok) { m.k[key] = Model::vi; m.v[key] = v; } break; }
        case 2: { const bool v = vp_case("bv", 0, 1); ok = target == Model::bo; thrown = throws([&] { A::SetValue(d, nm, v); }); if (ok) { m.k[key] = Model::bo; m.b[key] = v; } break; }
        case 3: { const double v = vp::real("x"); ok = target == Model::db; thrown = throws([&] { A::SetValue(d, nm, v); }); if (ok) { m.k[key] = Model::db; m.d[key] = v; } break; }
        case 4: { const IndexType v = vp::idx("i", 0, 1000000); ok = target == Model::ix || target == Model::db; thrown = throws([&] { A::SetValue(d, nm, v); });
                  if (target == Model::ix) { m.k[key] = Model::ix; m.i[key] = v; } else if (ok) { m.k[key] = Model::db; m.d[key] = (double)v; } break; }
        case 5: { const int a = (int)vp_any_int("i", 0, 20000); const int v = a - 10000; const bool neg = v < 0; ok = (target == Model::ix && !neg) || target == Model::db; thrown = throws([&] { A::SetValue(d, nm, v); });
                  if (ok && target == Model::ix) { m.k[key] = Model::ix; m.i[key] = (IndexType)v; } else if (ok) { m.k[key] = Model::db; m.d[key] = (double)v; } break; }
        case 6: { ok = target == Model::st; thrown = throws([&] { A::SetValue(d, nm, std::string(S[3])); }); if (ok) { m.k[key] = Model::st; m.s[key] = 3; } break; }
        case 7: { ok = target == Model::im; thrown = throws([&] { A::SetValue(d, nm, IntegrationMethod::ggq_optimal); }); if (ok) { m.k[key] = Model::im; m.m[key] = IntegrationMethod::ggq_optimal; } break; }
        case 8: { ok = target == Model::gt; thrown = throws([&] { A::SetValue(d, nm, GridType::hexahedral_fe_grid); }); if (ok) { m.k[key] = Model::gt; m.g[key] = GridType::hexahedral_fe_grid; } break; }
        case 9: { const unsigned v = 17u; ok = target == Model::ix || target == Model::db; thrown = throws([&] { A::SetValue(d, nm, v); });
                  if (target == Model::ix) { m.k[key] = Model::ix; m.i[key] = 17; } else if (ok) { m.k[key] = Model::db; m.d[key] = 17.0; } break; }
    }
    vp_ensure("accepted-iff-type-fits", thrown == !ok);
    for (int i = 0; i < cnt; ++i) check(d, n[i], m, i);
}
//@harness H_dict_types_grid property=P27
VP_HARNESS(H_dict_types_grid) {
    auto p = factories::CreateSettings(); D& d = (*p)[MainSettings::background_grid_settings]; Model m;
    wrongType(d, TN, TK, 7, m, [&] { if (vp_case("filled", 0, 1)) { A::SetValue(d, TN[0], GridType::b_spline_grid); m.k[0] = Model::gt; m.g[0] = GridType::b_spline_grid;
        for (int i = 1; i < 5; ++i) { PointType q{1.0*i, 2.0, 3.0}; A::SetValue(d, TN[i], q); m.k[i] = Model::pt; m.p[i] = q; }
        for (int i = 5; i < 7; ++i) { Vector3i q{(IndexType)i, 2, 3}; A::SetValue(d, TN[i], q); m.k[i] = Model::vi; m.v[i] = q; } } });
}
//@harness H_dict_types_condition property=P27
VP_HARNESS(H_dict_types_condition) {
    auto p = factories::CreateConditionSettings(); Model m;
    wrongType(*p, CN, CK, 7, m, [&] { if (vp_case("filled", 0, 1)) for (int i = 0; i < 7; ++i) { m.k[i] = CK[i];
        switch (CK[i]) { case Model::ix: m.i[i] = 5; A::SetValue(*p, CN[i], (IndexType)5); break; case Model::st: m.s[i] = 2; A::SetValue(*p, CN[i], std::string(S[2])); break;
            case Model::db: m.d[i] = 0.5*i; A::SetValue(*p, CN[i], 0.5*i); break; default: m.p[i] = {1.0, 2.0, 1.0*i}; A::SetValue(*p, CN[i], m.p[i]); } } });
}
static const char* RN[5] = {"moment_fitting_residual", "min_element_volume_ratio", "min_num_boundary_triangles", "neglect_elements_if_stl_is_flawed", "activate_fictitious_domain_with_alpha"};
static const Model::Kind RK[5] = {Model::db, Model::db, Model::ix, Model::bo, Model::db};
//@harness H_dict_types_rule property=P27,P29
VP_HARNESS(H_dict_types_rule) {
    auto p = factories::CreateSettings(); D& d = (*p)[MainSettings::trimmed_quadrature_rule_settings]; Model m;
    m.k[0] = Model::db; m.d[0] = 1e-10; m.k[1] = Model::db; m.d[1] = 1e-3; m.k[2] = Model::ix; m.i[2] = 100; m.k[3] = Model::bo; m.b[3] = true;
    wrongType(d, RN, RK, 5, m, [] {});
}
static const char* MN[1] = {"integration_method"}; static const Model::Kind MK[1] = {Model::im};
//@harness H_dict_types_method property=P27,P29
VP_HARNESS(H_dict_types_method) {
    auto p = factories::CreateSettings(); Model m; m.k[0] = Model::im; m.m[0] = IntegrationMethod::gauss;
    wrongType((*p)[MainSettings::non_trimmed_quadrature_rule_settings], MN, MK, 1, m, [] {});
}
static const char* QN[4] = {"input_filename", "output_directory_name", "echo_level", "write_output_to_file"}; static const Model::Kind QK[4] = {Model::st, Model::st, Model::ix, Model::bo};
//@harness H_dict_types_general property=P27,P29
VP_HARNESS(H_dict_types_general) {
    auto p = factories::CreateSettings(); D& d = (*p)[MainSettings::general_settings]; Model m;
    vp_ensure("default-directory", A::GetValue<std::string>(d, QN[1]) == "queso_output");
    A::SetValue(d, QN[1], std::string(S[4])); m.k[1] = Model::st; m.s[1] = 4; m.k[2] = Model::ix; m.i[2] = 1; m.k[3] = Model::bo; m.b[3] = true;
    wrongType(d, QN, QK, 4, m, [] {});
}

//@harness H_dict_unknown property=P27
VP_HARNESS(H_dict_unknown) {
    auto p = factories::CreateConditionSettings(); D& d = *p; auto s = factories::CreateSettings(); Model m;
    writeString(d, m, (int)vp_case("set", 0, 6), 0);
    static const char* bad[8] = {"", "Modulus", "modulus ", " modulus", "modulu", "value1", "lower_bound_xyz", "general_settings"};
    const char* n = bad[vp_case("name", 0, 7)];
    vp_ensure("unknown-key-not-there", !A::Has(d, n));
    vp_ensure("unknown-key-read-rejected", throws([&] { (void)A::GetValue<double>(d, n); }) && throws([&] { (void)A::IsSet(d, n); }));
    vp_ensure("unknown-key-write-rejected", throws([&] { A::SetValue(d, n, 2.0); }) && throws([&] { A::SetValue(d, n, PointType{1, 2, 3}); }) && throws([&] { A::SetValue(d, n, std::string("q")); }));
    vp_ensure("unknown-subdictionary-rejected", throws([&] { (void)A::GetSubDictionary(d, n); }) && throws([&] { (void)A::GetList(d, n); }) && throws([&] { A::SetSubDictionary(d, n, factories::CreateConditionSettings()); }));
    // keys of another kind of the same dictionary
    vp_ensure("list-key-is-no-subdictionary", throws([&] { (void)A::GetSubDictionary(*s, "conditions_settings_list"); }) && throws([&] { (void)A::GetList(*s, "general_settings"); }));
    vp_ensure("dictionary-without-values", throws([&] { A::SetValue(*s, "echo_level", 1u); }) && throws([&] { (void)A::GetValue<IndexType>(*s, "echo_level"); }) && throws([&] { (void)A::IsSet(*s, "echo_level"); }));
    // compile-time keys of another key set
    vp_ensure("foreign-key-rejected", throws([&] { d.SetValue(GeneralSettings::echo_level, 1u); }) && throws([&] { (void)d.IsSet(BackgroundGridSettings::lower_bound_uvw); })
        && throws([&] { (void)d.TryGetValue<double>(TrimmedQuadratureRuleSettings::activate_fictitious_domain_with_alpha); }) && throws([&] { (void)(*s)[MainInfo::quadrature_info]; }) && throws([&] { (void)s->GetList(MainInfo::conditions_infos_list); }));
    for (int i = 0; i < 7; ++i) { check(d, CN[i], m, i); vp_ensure("known-key-there", A::Has(d, CN[i])); }
}

//@harness H_dict_sub property=P27
VP_HARNESS(H_dict_sub) {
    auto p = factories::CreateSettings(); D& s = *p;
    static const char* sub[4] = {"general_settings", "background_grid_settings", "trimmed_quadrature_rule_settings", "non_trimmed_quadrature_rule_settings"};
    for (int i = 0; i < 4; ++i) vp_ensure("has-subdictionary", A::Has(s, sub[i]));
    vp_ensure("has-list", A::Has(s, "conditions_settings_list") && !A::Has(s, "conditions_infos_list"));
    vp_ensure("both-accesses-agree", &A::GetSubDictionary(s, sub[0]) == &s[MainSettings::general_settings] && &A::GetSubDictionary(s, sub[1]) == &s[MainSettings::background_grid_settings]
        && &A::GetSubDictionary(s, sub[2]) == &s[MainSettings::trimmed_quadrature_rule_settings] && &A::GetSubDictionary(s, sub[3]) == &s[MainSettings::non_trimmed_quadrature_rule_settings]
        && &A::GetList(s, "conditions_settings_list") == &s.GetList(MainSettings::conditions_settings_list));
    // lists keep their entries in order, independent of each other
    auto& list = s.GetList(MainSettings::conditions_settings_list);
    const int n = (int)vp_case("entries", 0, 4); Model m[4];
    for (int i = 0; i < n; ++i) { list.push_back(factories::CreateConditionSettings()); writeTyped(*list[i], m[i], 0, i); writeString(*list[i], m[i], 2, i); }
    vp_ensure("list-length", A::GetList(s, "conditions_settings_list").size() == (std::size_t)n);
    for (int i = 0; i < n; ++i) for (int k = 0; k < 7; ++k) check(*A::GetList(s, "conditions_settings_list")[i], CN[k], m[i], k);
    // a replaced sub-dictionary is the given one, the others stay
    const int r = (int)vp_case("replace", 0, 4);
    const D* old[4]; for (int i = 0; i < 4; ++i) old[i] = &A::GetSubDictionary(s, sub[i]);
    if (r < 4) { auto q = factories::CreateConditionSettings(); const D* np = q.get(); A::SetSubDictionary(s, sub[r], std::move(q)); old[r] = np; }
    for (int i = 0; i < 4; ++i) vp_ensure("subdictionaries", &A::GetSubDictionary(s, sub[i]) == old[i]);
    const bool empty = vp_case("empty", 0, 1);
    if (empty) { A::SetSubDictionary(s, sub[1], nullptr);
        vp_ensure("unset-subdictionary-rejected", throws([&] { (void)A::GetSubDictionary(s, sub[1]); }) && throws([&] { (void)s[MainSettings::background_grid_settings]; }) && throws([&] { s.CheckRequired(); })); }
}
//@harness H_dict_list_check property=P27,P29
VP_HARNESS(H_dict_list_check) {
    // required entries of list items are checked too
    auto p = vp::make_settings({{0,0,0},{1,1,1},{0,0,0},{1,1,1},{2,2,2},{2,2,2}}); auto& list = p->GetList(MainSettings::conditions_settings_list);
    const int n = (int)vp_case("entries", 0, 3), bad = (int)vp_case("incomplete", 0, 3), which = (int)vp_case("missing", 0, 2);
    for (int i = 0; i < n; ++i) {
        if (i == bad && which == 2) { list.push_back(nullptr); continue; }
        list.push_back(factories::CreateConditionSettings());
        if (i != bad || which != 0) list[i]->SetValue(ConditionSettings::condition_id, IndexType(i));
        if (i != bad || which != 1) list[i]->SetValue(ConditionSettings::input_filename, std::string("f"));
    }
    vp_ensure("list-items-checked", throws([&] { CheckDictionaryUtilities::CheckSettings(*p); }) == (bad < n));
}

// ---- P29
// settings with every required entry, except `omit` (1..8)
static Unique<D> settings(int omit, const Vector3i& order, const Vector3i& n, int method, int grid) {
    auto p = factories::CreateSettings(); auto& s = *p; auto& b = s[MainSettings::background_grid_settings];
    if (omit != 1) s[MainSettings::general_settings].SetValue(GeneralSettings::input_filename, std::string("x"));
    if (omit != 2) b.SetValue(BackgroundGridSettings::grid_type, grid ? GridType::hexahedral_fe_grid : GridType::b_spline_grid);
    if (omit != 3) b.SetValue(BackgroundGridSettings::lower_bound_xyz, PointType{0, 0, 0});
    if (omit != 4) b.SetValue(BackgroundGridSettings::upper_bound_xyz, PointType{1, 1, 1});
    if (omit != 5) b.SetValue(BackgroundGridSettings::lower_bound_uvw, PointType{0, 0, 0});
    if (omit != 6) b.SetValue(BackgroundGridSettings::upper_bound_uvw, PointType{1, 1, 1});
    if (omit != 7) b.SetValue(BackgroundGridSettings::polynomial_order, order);
    if (omit != 8) b.SetValue(BackgroundGridSettings::number_of_elements, n);
    s[MainSettings::non_trimmed_quadrature_rule_settings].SetValue(NonTrimmedQuadratureRuleSettings::integration_method, (IntegrationMethod)method);
    s[MainSettings::general_settings].SetValue(GeneralSettings::echo_level, 0u);
    return p;
}
static bool accepted(const D& d) { return !throws([&] { CheckDictionaryUtilities::CheckSettings(d); }); }
//@harness H_settings_consistent property=P29
VP_HARNESS(H_settings_consistent) {
    const int method = (int)vp_case("method", 0, 5), grid = (int)vp_case("grid", 0, 1);
    const Vector3i p{vp::idx("p", 0, 12), vp::idx("q", 0, 12), vp::idx("r", 0, 12)}, n{vp::idx("nx", 1, 1000), vp::idx("ny", 1, 1000), vp::idx("nz", 1, 1000)};
    bool want = true;
    for (int d = 0; d < 3; ++d) {
        want = vp_and(want, p[d] >= 1);
        if (method == 2 || method >= 3) want = vp_and(want, p[d] >= 2);
        if (method >= 3) want = vp_and(want, p[d] <= 4);
    }
    if (method >= 3 && grid == 1) want = false;
    auto s = settings(0, p, n, method, grid);
    vp_ensure("accepted-iff-consistent", accepted(*s) == want);
    vp_ensure("settings-unchanged", same(A::GetValue<Vector3i>((*s)[MainSettings::background_grid_settings], "polynomial_order"), p) && same(A::GetValue<Vector3i>((*s)[MainSettings::background_grid_settings], "number_of_elements"), n));
}
//@harness H_settings_complete property=P29
VP_HARNESS(H_settings_complete) {
    const int omit = (int)vp_case("omit", 0, 12);
    auto s = settings(omit, {2, 2, 2}, {3, 3, 3}, 0, 0);
    static const char* sub[4] = {"general_settings", "background_grid_settings", "trimmed_quadrature_rule_settings", "non_trimmed_quadrature_rule_settings"};
    if (omit > 8) A::SetSubDictionary(*s, sub[omit - 9], nullptr);
    vp_ensure("accepted-iff-complete", accepted(*s) == (omit == 0));
}
//@harness H_settings_defaults property=P29
VP_HARNESS(H_settings_defaults) {
    auto s = settings(0, {2, 2, 2}, {3, 3, 3}, 0, 0); s = factories::CreateSettings(); D& d = *s;
    auto& g = d[MainSettings::general_settings]; auto& t = d[MainSettings::trimmed_quadrature_rule_settings];
    vp_ensure("default-output-directory", A::GetValue<std::string>(g, "output_directory_name") == "queso_output");
    vp_ensure("default-echo-level", A::GetValue<IndexType>(g, "echo_level") == 1);
    vp_ensure("default-write-output", A::GetValue<bool>(g, "write_output_to_file"));
    vp_ensure("no-default-input", !A::IsSet(g, "input_filename"));
    vp_ensure("default-residual", A::GetValue<double>(t, "moment_fitting_residual") == 1.0e-10);
    vp_ensure("default-volume-ratio", A::GetValue<double>(t, "min_element_volume_ratio") == 1.0e-3);
    vp_ensure("default-boundary-triangles", A::GetValue<IndexType>(t, "min_num_boundary_triangles") == 100);
    vp_ensure("default-neglect-flawed", A::GetValue<bool>(t, "neglect_elements_if_stl_is_flawed"));
    vp_ensure("no-default-alpha", !A::IsSet(t, "activate_fictitious_domain_with_alpha"));
    vp_ensure("default-method", A::GetValue<IntegrationMethod>(d[MainSettings::non_trimmed_quadrature_rule_settings], "integration_method") == IntegrationMethod::gauss);
    for (int i = 0; i < 7; ++i) vp_ensure("no-default-grid", !A::IsSet(d[MainSettings::background_grid_settings], GN[i]));
    vp_ensure("no-default-conditions", d.GetList(MainSettings::conditions_settings_list).empty());
    auto c = factories::CreateConditionSettings(); for (int i = 0; i < 7; ++i) vp_ensure("no-default-condition", !A::IsSet(*c, CN[i]));
}
