//! Timestamps of allowed_signers entries.
use super::c14::Keys;
use super::*;
use crate::engine::*;
use crate::ensure;
use refm::allowed::{civil, days};
use refm::Tri;
use sshcerts::ssh::AllowedSigner;

extern "C" {
    fn tzset();
}
/// offset from UTC at an instant, by the C library
fn off(t: i64) -> i64 {
    unsafe {
        let mut tm: libc::tm = std::mem::zeroed();
        libc::localtime_r(&t, &mut tm);
        tm.tm_gmtoff
    }
}
/// The zone's offsets over a span of time, as (start, offset).
struct Zone {
    lo: i64,
    hi: i64,
    steps: Vec<(i64, i64)>,
}
impl Zone {
    fn set(tz: &str) {
        std::env::set_var("TZ", tz);
        unsafe { tzset() };
    }
    fn new(y0: i64, y1: i64) -> Zone {
        let (lo, hi) = (days(y0, 1, 1) * 86400 - 200_000, days(y1 + 1, 1, 1) * 86400 + 200_000);
        let mut steps = vec![(lo, off(lo))];
        let mut t = lo;
        while t < hi {
            let n = t + 3600;
            let (a, b) = (off(t), off(n));
            if a != b {
                let (mut x, mut y) = (t, n);
                while y - x > 1 {
                    let m = (x + y) / 2;
                    if off(m) == a {
                        x = m
                    } else {
                        y = m
                    }
                }
                steps.push((y, b));
            }
            t = n;
        }
        Zone { lo, hi, steps }
    }
    /// every instant at which a clock of the zone shows `c`
    fn instants(&self, c: i64) -> Vec<i64> {
        let mut r = vec![];
        if c - 100_000 > self.lo && c + 100_000 < self.hi {
            let first = self.steps.partition_point(|s| s.0 <= c - 200_000).saturating_sub(1);
            for i in first..self.steps.len() {
                let (s, o) = self.steps[i];
                if s > c + 200_000 {
                    break;
                }
                let e = self.steps.get(i + 1).map_or(i64::MAX, |n| n.0);
                if c - o >= s && c - o < e {
                    r.push(c - o);
                }
            }
        } else {
            let mut os: Vec<i64> = [-90_000, 0, 90_000].iter().map(|d| off(c + d)).collect();
            os.sort();
            os.dedup();
            r.extend(os.into_iter().map(|o| c - o).filter(|t| t + off(*t) == c));
        }
        r
    }
}
/// A skipped time, read with the rule before or the rule after the change.
fn adjacent(zone: &Zone, c: i64) -> Vec<i64> {
    zone.steps.windows(2).filter(|p| c >= p[1].0 + p[0].1 && c < p[1].0 + p[1].1).flat_map(|p| [c - p[0].1, c - p[1].1]).collect()
}
pub fn fmt(c: i64, digits: usize) -> String {
    let (d, s) = (c.div_euclid(86400), c.rem_euclid(86400));
    // civil date from days
    let z = d + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let day = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    let y = yoe + era * 400 + (m <= 2) as i64;
    let full = format!("{:04}{:02}{:02}{:02}{:02}{:02}", y, m, day, s / 3600, s / 60 % 60, s % 60);
    full[..digits].to_string()
}
struct Line {
    key: String,
}
impl Line {
    fn parse(&self, w: &mut W, ts: &str, style: usize) -> R<Result<Option<i64>, String>> {
        let s = match style {
            0 => format!("p valid-after={} {}", ts, self.key),
            1 => format!("p valid-before={} {}", ts, self.key),
            2 => format!("p valid-after=\"{}\" {}", ts, self.key),
            _ => format!("p valid-before=\"{}\" {}", ts, self.key),
        };
        let g = w.call("AllowedSigner::from_string", || AllowedSigner::from_string(&s))?;
        Ok(match g {
            Err(e) => Err(format!("{:?}", e)),
            Ok(g) => {
                let (v, o) = if style % 2 == 0 { (g.valid_after, g.valid_before) } else { (g.valid_before, g.valid_after) };
                ensure!(o.is_none(), "the other bound is {:?}", o);
                Ok(v)
            }
        })
    }
    fn case(&self, w: &mut W, tz: &str, zone: &Zone, ts: &str, style: usize) {
        w.case((tz, ts, style), || format!("TZ={} timestamp {:?} form {}", tz, ts, style), |w| {
            let (t, c) = civil(ts);
            let want: Option<Vec<i64>> = match (t, c) {
                (Tri::No, _) => Some(vec![]),
                (_, None) => None,
                (_, Some((c, true))) => Some(vec![c]),
                (_, Some((c, false))) => Some(zone.instants(c)),
            };
            let g = self.parse(w, ts, style)?;
            let want = match want {
                None => return Ok("not judged"),
                Some(v) => v,
            };
            match g {
                Err(e) => {
                    // a repeated local time has two right answers, one must be given
                    ensure!(want.is_empty(), "is refused ({}), expected {:?}", e, want);
                    Ok(if c.is_some() { "skipped local time, refused" } else { "refused" })
                }
                Ok(v) => {
                    if let (true, Some((c, false))) = (want.is_empty(), c) {
                        let adj = adjacent(zone, c);
                        ensure!(v.is_some_and(|v| adj.contains(&v)), "a skipped time gives {:?}, expected an error or one of {:?}", v, adj);
                        return Ok("skipped local time, adjacent instant");
                    }
                    ensure!(v.is_some_and(|v| want.contains(&v)), "gives {:?}, expected {:?}", v, want);
                    Ok(if want.len() > 1 { "repeated local time" } else { "instant" })
                }
            }
        });
    }
}

const ZONES: &[&str] = &[
    "UTC", "America/New_York", "Europe/London", "Europe/Dublin", "Australia/Lord_Howe", "Asia/Kathmandu", "Pacific/Apia", "America/St_Johns", "Africa/Casablanca", "Antarctica/Troll", "Pacific/Chatham",
    "America/Sao_Paulo", "Asia/Beirut", "Africa/Monrovia", "Pacific/Kiritimati", "Asia/Tehran", "Pacific/Kwajalein", "America/Caracas", "Asia/Pyongyang", "Europe/Moscow",
];
const POSIX: &[&str] = &["EST5EDT,M3.2.0,M11.1.0", "<+0330>-3:30", "XXX12", "AAA3BBB,M10.3.0/0,M2.3.0/0", "CET-1CEST,M3.5.0,M10.5.0/3", "<-00>0:00:30"];

pub fn run(cx: &Cx) {
    let ks = Keys::new();
    let l = &Line { key: ks.text(ks.ed()) };
    cx.assume("local time follows the C library's reading of the TZ variable and the tz database; second 60 is not judged");
    let utc = &Zone { lo: 0, hi: 0, steps: vec![] };
    // the same in two places: where local time is UTC, and where it never is
    let away = &Zone { lo: i64::MIN / 4, hi: i64::MAX / 4, steps: vec![(i64::MIN / 4, 20700)] };
    for (tz, home) in [("UTC", utc), ("<+0545>-5:45", away)] {
        Zone::set(tz);
        let once = |s: String| {
            if tz == "UTC" {
                cx.bound(s + ", both where local time is UTC and where it is 5:45 ahead");
            }
        };
        // syntax
        let lens = 24;
        let tails = ["", "Z", "z", "ZZ", "+00", "UTC", " ", "Z ", "\u{ff3a}", "+0000", ".5", "Z0", "ZZZ", "T"];
        let heads = ["", "+", "-", "0", "Z", " ", "T"];
        once(format!("digit strings of every length up to {} by {} endings by {} beginnings", lens, tails.len(), heads.len()));
        cx.group(&format!("lengths {}", tz), (lens + 1) * tails.len() * heads.len() * 2, |w, i| {
            let d = digits(i, &[lens + 1, tails.len(), heads.len(), 2]);
            let base = ["202402281203040000000000000", "111111111111111111111111111"][d[3]];
            let t = format!("{}{}{}", heads[d[2]], &base[..d[0]], tails[d[1]]);
            for style in 2..4 {
                l.case(w, tz, home, &t, style);
            }
            if !t.contains(' ') {
                l.case(w, tz, home, &t, i % 2);
            }
        });
        let goods = ["20240229", "20240229Z", "202402292359", "202402292359Z", "20240229235959", "20240229235959Z"];
        let chars = ["", "0", "1", "3", "6", "9", "-", "+", " ", ".", ":", "T", "Z", "z", "a", "\u{661}", "\u{ff11}", "\u{e9}", "/", "e", "x", "_"];
        cx.group(&format!("edits {}", tz), goods.len() * 16 * chars.len() * 2, |w, i| {
            let d = digits(i, &[goods.len(), 16, chars.len(), 2]);
            let g = goods[d[0]];
            if d[1] > g.len() || d[1] == g.len() && d[3] == 1 {
                return;
            }
            let t = format!("{}{}{}", &g[..d[1]], chars[d[2]], &g[d[1] + d[3]..]);
            for style in 2..4 {
                l.case(w, tz, home, &t, style);
            }
        });
        let abc = ["0", "1", "2", "Z", "-", " "];
        let depth = cx.pick(5, 7);
        cx.group(&format!("short {}", tz), words(abc.len(), depth), |w, i| {
            let t: String = word(i, abc.len(), depth).into_iter().map(|x| abc[x]).collect();
            l.case(w, tz, home, &t, 2);
        });
        // dates
        let years: Vec<i64> = vec![0, 1, 4, 99, 100, 400, 1000, 1582, 1600, 1700, 1800, 1899, 1900, 1901, 1904, 1969, 1970, 1971, 1972, 1999, 2000, 2001, 2004, 2023, 2024, 2025, 2037, 2038, 2039, 2099, 2100, 2101, 2106, 2200, 2262, 2400, 2999, 4000, 9996, 9999];
        once(format!("every MMDD from 0000 to 9999 in {} years, every date of {}", years.len(), cx.pick("1600 to 2399", "0000 to 9999")));
        cx.group(&format!("month-day {}", tz), years.len() * 10000, |w, i| {
            let t = format!("{:04}{:04}{}", years[i / 10000], i % 10000, ["Z", ""][i % 2]);
            l.case(w, tz, home, &t, i / 2 % 4);
        });
        let (y0, y1) = cx.pick((1600, 2400), (0, 10000));
        cx.group(&format!("dates {}", tz), (y1 - y0) as usize * 372, |w, i| {
            let (y, m, d) = (y0 + (i / 372) as i64, i / 31 % 12 + 1, i % 31 + 1);
            let t = format!("{:04}{:02}{:02}{}", y, m, d, ["Z", "2359Z", "235959Z", "", "0000"][i % 5]);
            l.case(w, tz, home, &t, i % 4);
        });
        // times of day
        let ds = ["19700101", "19691231", "20240229", "00000101", "99991231"];
        once("every HHMM 0000 to 9999 on five dates and every HHMMSS 000000 to 999999 on one (thorough: five)".to_string());
        cx.group(&format!("hour-minute {}", tz), ds.len() * 10000, |w, i| {
            let t = format!("{}{:04}{}", ds[i / 10000], i % 10000, ["Z", ""][i % 2]);
            l.case(w, tz, home, &t, i / 2 % 4);
        });
        cx.group(&format!("hour-minute-second {}", tz), cx.pick(1, 5) * 1_000_000, |w, i| {
            let t = format!("{}{:06}{}", ds[(i / 1_000_000 + 2) % 5], i % 1_000_000, ["Z", ""][i % 2]);
            l.case(w, tz, home, &t, i / 2 % 4);
        });
    }
    Zone::set("UTC");
    if cx.thorough {
        cx.bound("all 10^8 eight digit dates".to_string());
        cx.group("all-dates", 100_000_000, |w, i| {
            w.tick();
            let t = format!("{:08}Z", i);
            let (_, c) = civil(&t);
            let want = c.map(|c| c.0);
            // checked without recording each as a state
            let g = l.parse(w, &t, 0);
            if !matches!(&g, Ok(Ok(v)) if *v == want && want.is_some()) && !(matches!(&g, Ok(Err(_))) && want.is_none()) {
                l.case(w, "UTC", utc, &t, 0);
            }
        });
    }
    // zones
    let (z0, z1) = cx.pick((1970, 2037), (1902, 2100));
    let zones: Vec<&str> = ZONES.iter().filter(|z| std::path::Path::new("/usr/share/zoneinfo").join(z).exists()).chain(POSIX).copied().collect();
    cx.bound(format!("zones {:?}: every half hour of {} to {}, every minute within 4 hours and every second within 5 seconds of each change of offset", zones, z0, z1));
    for tz in &zones {
        if cx.stopped() {
            break;
        }
        Zone::set(tz);
        // a POSIX rule says nothing about earlier years
        let z0 = if POSIX.contains(tz) { 1970 } else { z0 };
        let zone = &Zone::new(z0, z1);
        let first = days(z0, 1, 1);
        let n = (days(z1 + 1, 1, 1) - first) as usize;
        cx.group(&format!("zone {}", tz), n, |w, i| {
            let c = (first + i as i64) * 86400;
            l.case(w, tz, zone, &fmt(c, 8), i % 4);
            l.case(w, tz, zone, &format!("{}Z", fmt(c, 8)), i % 4);
            let step = w.cx.pick(7200, 1800);
            for k in 0..86400 / step {
                let c = c + k * step;
                let z = if (k + i as i64) % 3 == 0 { "Z" } else { "" };
                if (k + i as i64) % 5 == 0 {
                    l.case(w, tz, zone, &format!("{}{}", fmt(c + 7, 14), z), (i + k as usize) % 4);
                } else {
                    l.case(w, tz, zone, &format!("{}{}", fmt(c, 12), z), (i + k as usize) % 4);
                }
            }
        });
        let mut at = vec![];
        for p in zone.steps.windows(2) {
            for o in [p[0].1, p[1].1] {
                for m in -240..=240 {
                    at.push((p[1].0 + o).div_euclid(60) * 60 + m * 60);
                }
                for s in -5..=5 {
                    at.push(p[1].0 + o + s);
                }
            }
        }
        at.sort();
        at.dedup();
        cx.group(&format!("changes {}", tz), at.len(), |w, i| {
            if at[i] % 60 == 0 {
                l.case(w, tz, zone, &fmt(at[i], 12), i % 4);
            } else {
                l.case(w, tz, zone, &fmt(at[i], 14), i % 4);
            }
            l.case(w, tz, zone, &format!("{}Z", fmt(at[i], [14, 12, 14, 8][i / 4 % 4])), i % 4);
        });
    }
    Zone::set("UTC");
}
