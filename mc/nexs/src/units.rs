//! N01: unit conversions against an independent table of units.

use mc_core::{catch, util, Ctx, Stats};
use nexsys::parsing::conversions;
use nexsys::units::convert;

type Q = (&'static str, &'static [(&'static str, f64)]);

const LB: f64 = 0.45359237;
const LBF: f64 = LB * 9.80665;
const BTU: f64 = 1055.056;
const EV: f64 = 1.602e-19;
const PSI: f64 = LBF / (0.0254 * 0.0254);
const TAU: f64 = std::f64::consts::TAU;
const PI: f64 = std::f64::consts::PI;

/// Units of every quantity with their size in SI units.
const UNITS: &[Q] = &[
    ("LENGTH", &[
        ("m", 1.0), ("meter", 1.0), ("metre", 1.0), ("Angstrom", 1e-10), ("nm", 1e-9), ("ft", 0.3048), ("dm", 0.1), ("in", 0.0254), ("inch", 0.0254),
        ("mm", 1e-3), ("micron", 1e-6), ("micrometer", 1e-6), ("nanometer", 1e-9), ("millimeter", 1e-3), ("cm", 0.01), ("km", 1e3), ("yd", 0.9144),
        ("yard", 0.9144), ("mi", 1609.344), ("mile", 1609.344), ("miles", 1609.344), ("fathom", 1.8288), ("mil", 2.54e-5), ("rod", 5.0292),
        ("furlong", 201.168), ("hectometer", 100.0),
    ]),
    ("MASS", &[
        ("kg", 1.0), ("lbm", LB), ("lb_m", LB), ("g", 1e-3), ("ton", 2000.0 * LB), ("grain", 6.479891e-5), ("mg", 1e-6), ("oz", LB / 16.0), ("ozm", LB / 16.0),
        ("slug", 14.593903), ("stone", 14.0 * LB), ("amu", 1.66054e-27), ("microgram", 1e-9), ("mt", 1e3), ("tonne", 1e3),
    ]),
    ("MOLES", &[("kgmole", 1.0), ("kgmol", 1.0), ("kmole", 1.0), ("kmol", 1.0), ("lbmole", LB), ("lbmol", LB), ("gmole", 1e-3), ("gmol", 1e-3), ("mole", 1e-3), ("mol", 1e-3)]),
    ("TIME", &[
        ("s", 1.0), ("sec", 1.0), ("second", 1.0), ("min", 60.0), ("minute", 60.0), ("h", 3600.0), ("hr", 3600.0), ("hour", 3600.0), ("day", 86400.0),
        ("days", 86400.0), ("week", 604800.0), ("weeks", 604800.0), ("fortnight", 1209600.0), ("year", 365.2425 * 86400.0), ("yr", 365.2425 * 86400.0),
        ("years", 365.2425 * 86400.0), ("millisec", 1e-3), ("microsec", 1e-6),
    ]),
    ("FREQUENCY", &[("cps", 1.0), ("cpm", 1.0 / 60.0), ("Bq", 1.0), ("ci", 3.7e10), ("Hz", 1.0)]),
    ("TEMPERATURE", &[("K", 1.0), ("C", 1.0), ("R", 5.0 / 9.0), ("F", 5.0 / 9.0)]),
    ("TEMP. DIFFERENCE", &[("DELTAK", 1.0), ("DELTAC", 1.0), ("DELTAF", 5.0 / 9.0), ("DELTAR", 5.0 / 9.0)]),
    ("VELOCITY", &[("mph", 0.44704), ("knot", 1852.0 / 3600.0), ("m/s", 1.0), ("km/s", 1e3), ("ft/s", 0.3048), ("kph", 1.0 / 3.6), ("km/h", 1.0 / 3.6)]),
    ("AREA", &[("sqm", 1.0), ("sqcm", 1e-4), ("sqft", 0.3048 * 0.3048), ("sqin", 0.0254 * 0.0254), ("acre", 4046.8564), ("hectare", 1e4), ("barn", 1e-28)]),
    ("VOLUME", &[
        ("gal", 0.003785411784), ("gallon", 0.003785411784), ("l", 1e-3), ("L", 1e-3), ("Bu", 0.03523907016688), ("ml", 1e-6), ("milliliter", 1e-6),
        ("microliter", 1e-9), ("liter", 1e-3), ("quart", 0.000946352946), ("oz", 2.95735296e-5), ("ozv", 2.95735296e-5), ("pint", 0.000473176473), ("bbl", 0.158987295),
    ]),
    ("VOLUMETRIC FLOW", &[("cfm", 0.0283168466 / 60.0), ("gph", 0.003785411784 / 3600.0), ("gpm", 0.003785411784 / 60.0)]),
    ("FORCE", &[("N", 1.0), ("kN", 1e3), ("lbf", LBF), ("lb_f", LBF), ("dyne", 1e-5), ("kgf", 9.80665), ("kg_f", 9.80665)]),
    ("PRESSURE", &[
        ("Pa", 1.0), ("milliPa", 1e-3), ("microPa", 1e-6), ("kPa", 1e3), ("MPa", 1e6), ("GPa", 1e9), ("gigaPa", 1e9), ("bar", 1e5), ("milliBar", 100.0),
        ("atm", 101325.0), ("psia", PSI), ("psi", PSI), ("ksi", 1e3 * PSI), ("psig", PSI), ("psf", PSI / 144.0), ("mmH2O", 9.80665), ("mH2O", 9806.65),
        ("mmHg", 133.322), ("inHg", 3386.389), ("torr", 133.322), ("inH2O", 249.089), ("ftH2O", 2989.07),
    ]),
    ("ENERGY", &[
        ("J", 1.0), ("milliJ", 1e-3), ("kJ", 1e3), ("MJ", 1e6), ("Wh", 3600.0), ("Whr", 3600.0), ("kWh", 3.6e6), ("kWhr", 3.6e6), ("MWh", 3.6e9), ("MWhr", 3.6e9),
        ("GWh", 3.6e12), ("GWhr", 3.6e12), ("GJ", 1e9), ("Btu", BTU), ("MMBtu", 1e6 * BTU), ("kBtu", 1e3 * BTU), ("cal", 4.1868), ("kcal", 4186.8), ("erg", 1e-7),
        ("ev", EV), ("eV", EV), ("keV", 1e3 * EV), ("kev", 1e3 * EV), ("bev", 1e9 * EV), ("beV", 1e9 * EV), ("therm", 1e5 * BTU), ("therms", 1e5 * BTU),
        ("quad", 1e15 * BTU), ("quads", 1e15 * BTU),
    ]),
    ("POWER", &[
        ("W", 1.0), ("hp", 745.7), ("ton", 12000.0 * BTU / 3600.0), ("tons", 12000.0 * BTU / 3600.0), ("microW", 1e-6), ("milliW", 1e-3), ("kW", 1e3), ("MW", 1e6),
        ("MegaW", 1e6), ("gW", 1e9), ("gigaW", 1e9),
    ]),
    ("VISCOSITY-DYNAMIC", &[("poise", 0.1), ("centipoise", 1e-3), ("micropoise", 1e-7), ("cp", 1e-3), ("Reyn", 6894.757)]),
    ("VISCOSITY-KINEMATIC", &[("Stoke", 1e-4), ("centiStoke", 1e-6)]),
    ("ANGLES", &[
        ("radian", 1.0), ("radians", 1.0), ("rad", 1.0), ("deg", PI / 180.0), ("degree", PI / 180.0), ("degrees", PI / 180.0), ("rev", TAU), ("revs", TAU),
        ("revolutions", TAU), ("minute", PI / 10800.0), ("quadrant", PI / 2.0), ("cycle", TAU), ("cycles", TAU),
    ]),
    ("CHARGE", &[("Coulomb", 1.0), ("Faraday", 96485.0), ("Abcoulomb", 10.0)]),
    ("ELECTRICAL CAPACITANCE", &[("Farad", 1.0), ("pFarad", 1e-12), ("pF", 1e-12)]),
    ("CURRENT", &[("Amp", 1.0), ("Ampere", 1.0), ("A", 1.0)]),
    ("ELECTRICAL RESISTANCE", &[("ohm", 1.0), ("kohm", 1e3)]),
    ("ELECTROMOTIVE FORCE", &[("Volt", 1.0), ("millivolt", 1e-3), ("kV", 1e3), ("MegaVolt", 1e6), ("v", 1.0)]),
    ("NON DIMENSIONAL", &[("space", 1.0), ("Percent", 0.01), ("person", 1.0), ("persons", 1.0), ("ppm", 1e-6), ("ppb", 1e-9), ("any", 1.0)]),
    ("MAGNETIC FLUX DENSITY", &[("Gauss", 1e-4), ("G", 1e-4), ("Tesla", 1.0), ("T", 1.0)]),
    ("MAGNETIC FLUX", &[("Maxwell", 1e-8), ("Mx", 1e-8), ("Weber", 1.0), ("Wb", 1.0)]),
    ("MAGNETIC FIELD STRENGTH", &[("Oersted", 79.57747), ("Oe", 79.57747)]),
];

fn base(q: &str) -> Vec<(String, f64)> {
    UNITS.iter().find(|u| u.0 == q).map(|u| u.1.iter().map(|(n, f)| (n.to_string(), *f)).collect()).unwrap_or_default()
}

fn ratio(a: &[(String, f64)], b: &[(String, f64)]) -> Vec<(String, f64)> {
    a.iter().flat_map(|x| b.iter().map(move |y| (format!("{}/{}", x.0, y.0), x.1 / y.1))).collect()
}

fn times(a: &[(String, f64)], b: &[(String, f64)]) -> Vec<(String, f64)> {
    a.iter()
        .flat_map(|x| b.iter().flat_map(move |y| [(format!("{}-{}", x.0, y.0), x.1 * y.1), (format!("{}-{}", y.0, x.0), x.1 * y.1)]))
        .collect()
}

/// The derived units of every quantity that has some.
fn derived() -> Vec<(&'static str, Vec<(String, f64)>)> {
    let (len, time, force) = (base("LENGTH"), base("TIME"), base("FORCE"));
    let area: Vec<_> = len.iter().map(|(n, f)| (format!("{n}^2"), f * f)).collect();
    let volume: Vec<_> = len.iter().map(|(n, f)| (format!("{n}^3"), f * f * f)).collect();
    let work = times(&force, &len);
    let all = |a: &[(String, f64)], q: &str| -> Vec<(String, f64)> { a.iter().cloned().chain(base(q)).collect() };
    vec![
        ("AREA", area.clone()),
        ("VOLUME", volume.clone()),
        ("ENERGY", work.clone()),
        ("VISCOSITY-DYNAMIC", times(&base("PRESSURE"), &time)),
        ("VELOCITY", ratio(&len, &time)),
        ("FREQUENCY", ratio(&base("NON DIMENSIONAL"), &time)),
        ("VOLUMETRIC FLOW", ratio(&all(&volume, "VOLUME"), &time)),
        ("PRESSURE", ratio(&force, &all(&area, "AREA"))),
        ("SPRING FORCE", ratio(&force, &len)),
        ("POWER", ratio(&all(&work, "ENERGY"), &time)),
    ]
}

fn tol(name: &str) -> f64 {
    // Older or rounded values of some units are in use.
    name.split(['/', '-', '^'])
        .map(|part| match part {
            "Faraday" => 1e-3,
            "ev" | "eV" | "kev" | "keV" | "bev" | "beV" => 1e-4,
            "oz" | "ozv" | "quart" | "pint" => 4e-5,
            _ => 1.2e-5,
        })
        .sum()
}

fn factor(a: &str, b: &str, st: &mut Stats) -> Result<Option<f64>, String> {
    st.step();
    catch(|| convert(a, b).ok()).map_err(|p| format!("panicked: {p}"))
}

/// Names that two quantities share, so that a pair of them is ambiguous.
fn shared(a: &str, b: &str) -> bool {
    let amb = ["oz", "ton", "minute"];
    a == b && amb.contains(&a)
}

fn check(a: &str, b: &str, want: f64, st: &mut Stats) -> Result<(), String> {
    let got = factor(a, b, st)?.ok_or("refused")?;
    if !((got / want - 1.0).abs() <= tol(a) + tol(b)) {
        return Err(format!("factor {got:e}, expected {want:e}"));
    }
    let back = factor(b, a, st)?.ok_or("the way back is refused")?;
    if !((got * back - 1.0).abs() <= 1e-12) {
        return Err(format!("there and back is {}, not 1", got * back));
    }
    st.outcome("converted");
    st.state(util::fnv_f64(&[got]));
    Ok(())
}

fn in_text(a: &str, b: &str, st: &mut Stats) -> Result<(), String> {
    let f = factor(a, b, st)?.ok_or("refused")?;
    for (text, pre, post) in [
        (format!("[{a}->{b}]"), "", ""),
        (format!("x = 2*[{a}->{b}] + 1"), "x = 2*", " + 1"),
        (format!("y - 3 = z\n[{a}->{b}]*x=y"), "y - 3 = z\n", "*x=y"),
    ] {
        st.step();
        let out = catch(|| conversions(&text).map_err(|e| e.to_string())).map_err(|p| format!("{text:?} panicked: {p}"))?.map_err(|e| format!("{text:?} refused: {e}"))?;
        let num = out.strip_prefix(pre).and_then(|o| o.strip_suffix(post)).ok_or(format!("{text:?} became {out:?}"))?;
        match num.parse::<f64>() {
            Ok(v) if v == f => {}
            _ => return Err(format!("{text:?} became {out:?}, the factor is {f}")),
        }
    }
    Ok(())
}

pub fn n01(ctx: &mut Ctx) {
    // Every pair of units of the same quantity.
    for (q, us) in UNITS {
        for (a, fa) in us.iter() {
            for (b, fb) in us.iter() {
                if shared(a, b) {
                    continue;
                }
                ctx.case(
                    || format!("{q}: {a} -> {b}"),
                    |st| {
                        check(a, b, fa / fb, st)?;
                        in_text(a, b, st)
                    },
                );
            }
        }
    }
    // Every derived unit against a plain or derived one of its quantity and its neighbour.
    for (q, us) in derived() {
        let plain = base(q);
        let deep = !ctx.quick();
        for (i, (a, fa)) in us.iter().enumerate() {
            let mut to: Vec<&(String, f64)> = vec![];
            to.extend(plain.get(i % plain.len().max(1)));
            to.push(&us[(i * 31 + 1) % us.len()]);
            if deep {
                to.extend(plain.iter());
                to.extend((0..12).map(|k| &us[(i + k * k * 7 + 2) % us.len()]));
            }
            for (b, fb) in to {
                ctx.case(
                    || format!("{q}: {a} -> {b}"),
                    |st| {
                        check(a, b, fa / fb, st)?;
                        if deep || i % 16 == 0 {
                            in_text(a, b, st)?;
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    // Units of different quantities, and names that are no units.
    let der = derived();
    let mut kinds: Vec<(&str, Vec<String>)> = vec![];
    let per = ctx.pick(2, 6);
    for (q, us) in UNITS {
        let mut names: Vec<String> = us.iter().map(|u| u.0.to_string()).filter(|n| !["oz", "ton", "minute"].contains(&n.as_str())).take(per).collect();
        if let Some((_, d)) = der.iter().find(|d| d.0 == *q) {
            names.extend(d.iter().step_by(1 + d.len() / per).map(|u| u.0.clone()));
        }
        kinds.push((q, names));
    }
    kinds.push(("no unit", ["", "metre2", "M/S", "m/", "/s", "m->", "kgg", "m^4", "s^2"].map(String::from).to_vec()));
    for (qa, us) in &kinds {
        for (qb, vs) in &kinds {
            if qa == qb && *qa != "no unit" {
                continue;
            }
            for a in us {
                for b in vs {
                    ctx.case(
                        || format!("{qa}: {a} -> {qb}: {b}"),
                        |st| {
                            st.outcome("refused");
                            match factor(a, b, st)? {
                                None => Ok(()),
                                Some(f) => Err(format!("gives {f}")),
                            }
                        },
                    );
                }
            }
        }
    }
    // Beside numbers, names and other conversions without an operator, they do not become one with them.
    for c in ["m->mm", "ft->m", "m->ft", "km->m", "hr->s", "s->hr", "ft^3/min->cfm", "J->N-m"] {
        for (l, r) in ["2", "2.", "0.5", "x", "a_", "k", "1e", "(2)", "#g", "#true", "[m->mm]"].map(|l| (l, "")).into_iter().chain(["5", "x", "_1", ".5", "e3", "E2", "(2)", "#g", "#true", "[m->mm]", "[ft->m]"].map(|r| ("", r))) {
            crate::consts::beside(ctx, &format!("{l}[{c}]{r}"));
        }
    }
    // Several conversions in one text, each refused one refuses all of it.
    let some = [("ft", "m", 0.3048), ("m", "ft", 1.0 / 0.3048), ("in^2", "sqin", 1.0), ("lbf-ft", "J", LBF * 0.3048), ("m", "s", 0.0), ("ft^3/min", "cfm", 1.0), ("min", "s", 60.0), ("mi", "m", 1609.344)];
    for i in 0..some.len() {
        for j in 0..some.len() {
            for k in 0..some.len() {
                let text = format!("x = [{}->{}] + [{}->{}]\ny = [{}->{}]", some[i].0, some[i].1, some[j].0, some[j].1, some[k].0, some[k].1);
                ctx.case(
                    || format!("text {text:?}"),
                    |st| {
                        let got = crate::common::solve_text(&text, 1e-9, 50, 1)?;
                        st.step();
                        let f = [some[i].2, some[j].2, some[k].2];
                        if f.contains(&0.0) {
                            st.outcome("text refused");
                            return if got.is_ok() { Err(format!("solved as {got:?}")) } else { Ok(()) };
                        }
                        st.outcome("text solved");
                        crate::common::demand(&got, &[("x", f[0] + f[1]), ("y", f[2])], 2e-4)
                    },
                );
            }
        }
    }
}
