// Library probe: a line oriented server around the public interface of the
// MaRC library.  One request per line, one answer per line.
#include <marc/ViewingGeometry.h>
#include <marc/OblateSpheroid.h>
#include <marc/GLLGeometricCorrection.h>
#include <marc/Mathematics.h>
#include <marc/Geometry.h>
#include <marc/Matrix.h>
#include <marc/Vector.h>
#include <marc/root_find.h>
#include <marc/extrema.h>
#include <marc/scale_and_offset.h>
#include <marc/utility.h>
#include <marc/Notifier.h>
#include <marc/Observer.h>
#include <marc/Mercator.h>
#include <marc/PolarStereographic.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

namespace
{
    using args = std::istringstream;

    double num(args & a)
    {
        std::string s;
        if (!(a >> s))
            throw std::logic_error("probe: missing argument");
        return std::strtod(s.c_str(), nullptr);
    }

    long integer(args & a) { return static_cast<long>(num(a)); }

    std::string hex(double v)
    {
        char b[64];
        std::snprintf(b, sizeof b, "%a ", v);
        return b;
    }

    template <typename T>
    std::string hexes(T const & t)
    {
        std::string s;
        for (auto const & v : t)
            s += hex(static_cast<double>(v));
        return s;
    }

    template <typename V>
    V vec(args & a)
    {
        V v;
        for (auto & e : v)
            e = static_cast<typename V::value_type>(num(a));
        return v;
    }

    /// Records its notifications.
    struct recorder : MaRC::Progress::Observer
    {
        explicit recorder(std::vector<double> & l) : log(l) {}
        void notify(std::size_t size, std::size_t count) override
        {
            log.push_back(static_cast<double>(size));
            log.push_back(static_cast<double>(count));
        }
        void reset() override { log.push_back(-1); }
        std::vector<double> & log;
    };

    std::string notifications(args & in)
    {
        std::size_t const n = integer(in), late = integer(in), planes = integer(in);
        std::vector<std::vector<double>> logs(n + late);
        MaRC::Progress::Notifier notifier;
        for (std::size_t i = 0; i < n; ++i)
            notifier.subscribe(std::make_unique<recorder>(logs[i]));
        for (std::size_t j = 0; j < planes; ++j) {
            if (j == 1)
                for (std::size_t i = n; i < n + late; ++i)
                    notifier.subscribe(std::make_unique<recorder>(logs[i]));
            std::size_t const size = integer(in), plotted = integer(in);
            for (std::size_t i = 0; i < plotted; ++i)
                notifier.notify_plotted(size);
            notifier.notify_done(size);
        }
        std::string s;
        for (auto const & l : logs)
            s += hexes(l) + hex(-2);
        return s;
    }

    using V3 = MaRC::DVector;
    using M3 = MaRC::DMatrix;

    std::unique_ptr<MaRC::ViewingGeometry> vg;

    std::string make_vg(args & in)
    {
        bool const prograde = integer(in);
        double const a = num(in), c = num(in);
        auto body = std::make_shared<MaRC::OblateSpheroid>(prograde, a, c);
        vg = std::make_unique<MaRC::ViewingGeometry>(body);
        double const olat = num(in), olon = num(in);
        vg->sub_observ(olat, olon);
        double const slat = num(in), slon = num(in);
        vg->sub_solar(slat, slon);
        vg->range(num(in));
        vg->position_angle(num(in));
        std::string mode;
        in >> mode;
        double const s1 = num(in), s2 = num(in);
        if (mode == "km")
            vg->km_per_pixel(s1);
        else if (mode == "arc")
            vg->arcsec_per_pixel(s1);
        else {
            vg->focal_length(s1);
            vg->scale(s2);
        }
        in >> mode;
        double const c1 = num(in), c2 = num(in);
        if (mode == "sl")
            vg->body_center(c1, c2);
        else
            vg->lat_lon_center(c1, c2);
        double const os = num(in), ol = num(in);
        if (!std::isnan(os))
            vg->optical_axis_sample(os);
        if (!std::isnan(ol))
            vg->optical_axis_line(ol);
        double const emi = num(in);
        if (!std::isnan(emi))
            vg->emi_ang_limit(emi);
        vg->use_terminator(integer(in));
        bool const gll = integer(in);
        std::size_t const ns = integer(in), nl = integer(in);
        if (gll)
            vg->geometric_correction(
                std::make_unique<MaRC::GLLGeometricCorrection>(ns));
        vg->finalize_setup(ns, nl);
        return "ok";
    }

    /// Strictly increasing functions.
    double f(int kind, double p, double q, double x)
    {
        switch (kind) {
        case 0: return p * x + q;
        case 1: return p * x * x * x + x + q;
        case 2: return std::atan(p * x) + q;
        case 3: return std::exp(p * x) + q;
        case 4: return std::asinh(p * x) + q;
        case 5: return std::cbrt(p * x) + q;
        case 6:  // Isometric latitude; p is the eccentricity.
            return std::atanh(std::sin(x)) - p * std::atanh(p * std::sin(x))
                + q;
        default: return std::sinh(p * x) + q;
        }
    }

    template <typename T>
    std::string ext(args & in)
    {
        MaRC::extrema<T> e;
        std::string op;
        while (in >> op) {
            if (op == "u")
                e.update(static_cast<T>(num(in)));
            else if (op == "m") {
                T const lo = static_cast<T>(num(in));
                T const hi = static_cast<T>(num(in));
                e.update(MaRC::extrema<T>(lo, hi));
            } else if (op == "e")
                e.update(MaRC::extrema<T>());
            else if (op == "r")
                e.reset();
            else if (op == "c") {
                MaRC::extrema<T> copy(e);
                MaRC::extrema<T> other;
                swap(copy, other);
                e = other;
            } else if (op == "q") {
                double const v = num(in);
                return e.in_range(v) ? "1" : "0";
            }
        }
        std::string s = e.is_valid() ? "1 " : "0 ";
        s += e.minimum() ? hex(*e.minimum()) : std::string("none ");
        s += e.maximum() ? hex(*e.maximum()) : std::string("none ");
        return s;
    }

    template <typename T>
    std::string so(double lo, double hi)
    {
        double scale = 0, offset = 0;
        if (!MaRC::scale_and_offset<T>(lo, hi, scale, offset))
            return "0";
        return "1 " + hex(scale) + hex(offset);
    }

    template <std::size_t M>
    std::string mag(args & in)
    {
        auto const v = vec<MaRC::Vector<double, M>>(in);
        return hex(v.magnitude());
    }

    template <typename Mx>
    Mx mat(args & a) { return vec<Mx>(a); }

    std::string answer(std::string const & line)
    {
        args in(line);
        std::string c;
        in >> c;

        if (c == "vg")
            return make_vg(in);
        if (c == "ll") {
            double const lat = num(in), lon = num(in);
            double x = -1, z = -1;
            if (!vg->latlon2pix(lat, lon, x, z))
                return "0";
            return "1 " + hex(x) + hex(z);
        }
        if (c == "vis") {
            double const lat = num(in), lon = num(in);
            return vg->is_visible(lat, lon) ? "1" : "0";
        }
        if (c == "px") {
            double const s = num(in), l = num(in);
            double lat = 0, lon = 0;
            if (!vg->pix2latlon(s, l, lat, lon))
                return "0";
            return "1 " + hex(lat) + hex(lon);
        }
        if (c == "mask") {
            std::size_t const ns = integer(in), nl = integer(in);
            std::string s;
            for (bool b : vg->body_mask(ns, nl))
                s += b ? '1' : '0';
            return s;
        }
        if (c == "body") {
            bool const prograde = integer(in);
            double const a = num(in), cc = num(in);
            MaRC::OblateSpheroid b(prograde, a, cc);
            double const lat = num(in);
            return hex(b.centric_radius(lat)) + hex(b.graphic_latitude(lat))
                + hex(b.centric_latitude(lat)) + hex(b.M(lat)) + hex(b.N(lat))
                + hex(b.first_eccentricity()) + hex(b.flattening());
        }
        if (c == "hit") {
            double const a = num(in), cc = num(in);
            MaRC::OblateSpheroid b(true, a, cc);
            auto const o = vec<V3>(in), d = vec<V3>(in);
            double lat = 0, lon = 0;
            int const r = b.ellipse_intersection(o, d, lat, lon);
            if (r != 0)
                return "0";
            return "1 " + hex(lat) + hex(lon);
        }
        if (c == "vadd") { auto a = vec<V3>(in), b = vec<V3>(in); return hexes(a + b); }
        if (c == "vsub") { auto a = vec<V3>(in), b = vec<V3>(in); return hexes(a - b); }
        if (c == "vscale") { double x = num(in); auto a = vec<V3>(in); return hexes(x * a) + hexes(a * x); }
        if (c == "dot") { auto a = vec<V3>(in), b = vec<V3>(in); return hex(MaRC::dot_product(a, b)); }
        if (c == "unit") { auto a = vec<V3>(in); a.to_unit_vector(); return hexes(a); }
        if (c == "veq") { auto a = vec<V3>(in), b = vec<V3>(in); return std::string(a == b ? "1" : "0") + (a != b ? " 1" : " 0"); }
        if (c == "mag1") return mag<1>(in);
        if (c == "mag2") return mag<2>(in);
        if (c == "mag3") return mag<3>(in);
        if (c == "mag4") return mag<4>(in);
        if (c == "mag5") return mag<5>(in);
        if (c == "mm") { auto a = mat<M3>(in), b = mat<M3>(in); return hexes(a * b); }
        if (c == "madd") { auto a = mat<M3>(in), b = mat<M3>(in); return hexes(a + b); }
        if (c == "msub") { auto a = mat<M3>(in), b = mat<M3>(in); return hexes(a - b); }
        if (c == "mscale") { double x = num(in); auto a = mat<M3>(in); return hexes(x * a) + hexes(a * x); }
        if (c == "mv") { auto a = mat<M3>(in); auto v = vec<V3>(in); return hexes(a * v); }
        if (c == "mt") { auto a = mat<M3>(in); return hexes(MaRC::transpose(a)); }
        if (c == "meq") { auto a = mat<M3>(in), b = mat<M3>(in); return std::string(a == b ? "1" : "0") + (a != b ? " 1" : " 0"); }
        if (c == "mn") {
            auto a = mat<MaRC::Matrix<double, 2, 3>>(in);
            auto b = mat<MaRC::Matrix<double, 3, 4>>(in);
            auto v = vec<V3>(in);
            MaRC::Matrix<double, 2, 4> const p(a * b);
            MaRC::Vector<double, 2> const w(a * v);
            return hexes(p) + hexes(MaRC::transpose(a)) + hexes(w);
        }
        if (c == "rot") {
            std::string axis;
            in >> axis;
            double const angle = num(in);
            auto const v = vec<V3>(in);
            V3 r;
            M3 m;
            if (axis == "X") {
                MaRC::Geometry::RotX(angle, v, r);
                m = MaRC::Geometry::RotXMatrix(angle);
            } else if (axis == "Y") {
                MaRC::Geometry::RotY(angle, v, r);
                m = MaRC::Geometry::RotYMatrix(angle);
            } else {
                MaRC::Geometry::RotZ(angle, v, r);
                m = MaRC::Geometry::RotZMatrix(angle);
            }
            return hexes(r) + hexes(m);
        }
        if (c == "i2o" || c == "o2i") {
            MaRC::GLLGeometricCorrection const g(integer(in));
            double line = num(in), sample = num(in);
            if (c == "i2o")
                g.image_to_object(line, sample);
            else
                g.object_to_image(line, sample);
            return hex(line) + hex(sample);
        }
        if (c == "root") {
            int const kind = integer(in);
            double const sign = num(in), p = num(in), q = num(in);
            double const y = num(in), lo = num(in), hi = num(in);
            return hex(MaRC::root_find(
                y, lo, hi,
                [=](double x) { return sign * f(kind, p, q, x); }));
        }
        if (c == "fun") {
            int const kind = integer(in);
            double const sign = num(in), p = num(in), q = num(in), x = num(in);
            return hex(sign * f(kind, p, q, x));
        }
        if (c == "quad") {
            double const a = num(in), b = num(in), cc = num(in);
            std::pair<double, double> r;
            if (!MaRC::quadratic_roots(a, b, cc, r))
                return "0";
            return "1 " + hex(r.first) + hex(r.second);
        }
        if (c == "aeq") {
            double const x = num(in), y = num(in);
            int const u = integer(in);
            auto const fx = static_cast<float>(x), fy = static_cast<float>(y);
            std::string s;
            s += MaRC::almost_equal(x, y, u) ? "1 " : "0 ";
            s += MaRC::almost_equal(fx, fy, u) ? "1 " : "0 ";
            s += MaRC::almost_zero(x, u) ? "1 " : "0 ";
            s += MaRC::almost_zero(fx, u) ? "1 " : "0 ";
            s += std::to_string(MaRC::signum(x)) + " ";
            s += std::to_string(MaRC::sgn(x)) + " ";
            return s;
        }
        if (c == "ext") {
            std::string t;
            in >> t;
            if (t == "d") return ext<double>(in);
            if (t == "f") return ext<float>(in);
            if (t == "i") return ext<int>(in);
            if (t == "b") return ext<std::uint8_t>(in);
            if (t == "s") return ext<std::int16_t>(in);
            return ext<std::int64_t>(in);
        }
        if (c == "so") {
            std::string t;
            in >> t;
            double const lo = num(in), hi = num(in);
            if (t == "b") return so<std::uint8_t>(lo, hi);
            if (t == "s") return so<std::int16_t>(lo, hi);
            if (t == "i") return so<std::int32_t>(lo, hi);
            if (t == "l") return so<std::int64_t>(lo, hi);
            if (t == "f") return so<float>(lo, hi);
            return so<double>(lo, hi);
        }
        if (c == "inv") {
            std::string t;
            in >> t;
            std::size_t const ns = integer(in), nl = integer(in);
            std::vector<double> v(ns * nl);
            for (auto & e : v)
                e = num(in);
            if (t == "h" || t == "b")
                MaRC::invert_samples(v, ns, nl);
            if (t == "v" || t == "b")
                MaRC::invert_lines(v, ns, nl);
            return hexes(v);
        }
        if (c == "notify")
            return notifications(in);
        if (c == "distort") {
            bool const north = integer(in);
            double const a = num(in), p = num(in), latg = num(in);
            auto const body = std::make_shared<MaRC::OblateSpheroid>(true, a, p);
            return hex(MaRC::Mercator(body).distortion(latg))
                + hex(MaRC::PolarStereographic(body, 0, north).distortion(latg));
        }
        throw std::logic_error("probe: unknown request " + c);
    }
}

int main()
{
    std::ios::sync_with_stdio(false);
    std::string line;
    while (std::getline(std::cin, line)) {
        std::string a;
        try {
            a = answer(line);
        } catch (std::exception const & e) {
            a = std::string("ERR ") + e.what();
        }
        for (auto & ch : a)
            if (ch == '\n')
                ch = ' ';
        // Log output of the library goes to the standard output, too.
        std::cout << "\n@@ " << a << "\n" << std::flush;
    }
    return 0;
}
