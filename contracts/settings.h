// Helper of contract units: settings dictionary built through the real factory and dictionary code.
#ifndef VP_SETTINGS_H
#define VP_SETTINGS_H
#include "vp.h"
#include "queso/includes/dictionary_factory.hpp"
namespace vp {
using namespace queso;
struct GridSpec { PointType lo, hi, plo, phi; Vector3i n; Vector3i order{2,2,2}; bool bspline = true; };
inline Unique<MainDictionaryType> make_settings(const GridSpec& g) {
    auto p = factories::CreateSettings();
    auto& s = *p;
    s[MainSettings::general_settings].SetValue(GeneralSettings::input_filename, std::string("x"));
    auto& b = s[MainSettings::background_grid_settings];
    b.SetValue(BackgroundGridSettings::grid_type, g.bspline ? GridType::b_spline_grid : GridType::hexahedral_fe_grid);
    b.SetValue(BackgroundGridSettings::lower_bound_xyz, g.lo);
    b.SetValue(BackgroundGridSettings::upper_bound_xyz, g.hi);
    b.SetValue(BackgroundGridSettings::lower_bound_uvw, g.plo);
    b.SetValue(BackgroundGridSettings::upper_bound_uvw, g.phi);
    b.SetValue(BackgroundGridSettings::polynomial_order, g.order);
    b.SetValue(BackgroundGridSettings::number_of_elements, g.n);
    s.CheckRequired();
    return p;
}
}
#endif
