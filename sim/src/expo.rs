//! A strict parser of the Prometheus text format, written from the format's documentation.
use crate::common::{Fam, Series, Val};
use prometrics::metric::MetricKind;

fn name_ok(s: &str, colon: bool) -> bool {
    !s.is_empty()
        && s.chars().enumerate().all(|(i, c)| c.is_ascii_alphabetic() || c == '_' || (colon && c == ':') || (i > 0 && c.is_ascii_digit()))
}
fn unescape(s: &str, quote: bool) -> Result<String, String> {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => o.push('\\'),
                Some('n') => o.push('\n'),
                Some('"') if quote => o.push('"'),
                x => return Err(format!("bad escape sequence \\{:?} in {:?}", x, s)),
            }
        } else {
            o.push(c)
        }
    }
    Ok(o)
}
fn number(s: &str) -> Result<f64, String> {
    let ok = s.chars().all(|c| c.is_ascii_digit() || "+-.eE".contains(c)) || ["nan", "+inf", "-inf", "inf"].contains(&&*s.to_ascii_lowercase());
    if !ok {
        return Err(format!("{:?} is not a value", s));
    }
    match &*s.to_ascii_lowercase() {
        "nan" => Ok(f64::NAN),
        "+inf" | "inf" => Ok(f64::INFINITY),
        "-inf" => Ok(f64::NEG_INFINITY),
        _ => s.parse().map_err(|_| format!("{:?} is not a value", s)),
    }
}
pub struct Sample {
    pub name: String,
    pub labels: Vec<(String, String)>,
    pub value: f64,
    pub ts: Option<i64>,
}
pub fn sample(l: &str) -> Result<Sample, String> {
    let e = |m: &str| Err(format!("{} in line {:?}", m, l));
    let end = l.find(|c| c == '{' || c == ' ').unwrap_or(l.len());
    let name = &l[..end];
    if !name_ok(name, true) {
        return e("bad metric name");
    }
    let mut rest = &l[end..];
    let mut labels: Vec<(String, String)> = vec![];
    if rest.starts_with('{') {
        rest = &rest[1..];
        loop {
            if let Some(r) = rest.strip_prefix('}') {
                rest = r;
                break;
            }
            let eq = match rest.find('=') {
                Some(i) => i,
                None => return e("label without value"),
            };
            let ln = &rest[..eq];
            if !name_ok(ln, false) {
                return e("bad label name");
            }
            rest = match rest[eq + 1..].strip_prefix('"') {
                Some(r) => r,
                None => return e("label value without quotes"),
            };
            let mut esc = false;
            let q = rest.char_indices().find(|&(_, c)| {
                if esc {
                    esc = false;
                    false
                } else {
                    esc = c == '\\';
                    c == '"'
                }
            });
            let q = match q {
                Some((i, _)) => i,
                None => return e("unterminated label value"),
            };
            let v = unescape(&rest[..q], true)?;
            if labels.iter().any(|x| x.0 == ln) {
                return e("label twice");
            }
            labels.push((ln.to_string(), v));
            rest = &rest[q + 1..];
            if let Some(r) = rest.strip_prefix(',') {
                rest = r;
                if rest.starts_with('}') {
                    return e("trailing comma");
                }
            } else if !rest.starts_with('}') {
                return e("junk after a label value");
            }
        }
    }
    let w: Vec<&str> = match rest.strip_prefix(' ') {
        Some(r) => r.split(' ').collect(),
        None => return e("no value"),
    };
    if w.is_empty() || w.len() > 2 {
        return e("junk after the value");
    }
    let value = number(w[0]).map_err(|m| format!("{} in line {:?}", m, l))?;
    let ts = match w.get(1) {
        Some(t) => match t.parse::<i64>() {
            Ok(t) => Some(t),
            Err(_) => return e("bad timestamp"),
        },
        None => None,
    };
    Ok(Sample { name: name.to_string(), labels, value, ts })
}

/// `dup_names`: families of different kinds may share a name.
pub fn parse(text: &str, dup_names: bool) -> Result<Vec<Fam>, String> {
    let mut fams: Vec<Fam> = vec![];
    if text.is_empty() {
        return Ok(fams);
    }
    if !text.ends_with('\n') {
        return Err("the text does not end with a line feed".into());
    }
    let mut help: Option<(String, String)> = None;
    let mut have: Vec<(String, Vec<(String, String)>)> = vec![];
    // parts of the histogram or summary being read: name of the last part seen
    let mut open: Option<(Vec<(String, String)>, Option<i64>, Vec<(f64, f64)>, Option<f64>, Option<f64>)> = None;
    for l in text[..text.len() - 1].split('\n') {
        if let Some(r) = l.strip_prefix("# HELP ") {
            let (n, h) = r.split_once(' ').ok_or(format!("HELP without text: {:?}", l))?;
            if !name_ok(n, true) || help.is_some() || open.is_some() {
                return Err(format!("misplaced HELP line {:?}", l));
            }
            help = Some((n.to_string(), unescape(h, false)?));
        } else if let Some(r) = l.strip_prefix("# TYPE ") {
            let (n, k) = r.split_once(' ').ok_or(format!("bad TYPE line {:?}", l))?;
            let kind = match k {
                "counter" => MetricKind::Counter,
                "gauge" => MetricKind::Gauge,
                "histogram" => MetricKind::Histogram,
                "summary" => MetricKind::Summary,
                _ => return Err(format!("bad TYPE line {:?}", l)),
            };
            if open.is_some() {
                return Err(format!("TYPE line {:?} inside a series", l));
            }
            if fams.iter().any(|f| f.name == n && (!dup_names || f.kind == kind)) {
                return Err(format!("family {} appears twice", n));
            }
            let h = match help.take() {
                Some((hn, h)) => {
                    if hn != n {
                        return Err(format!("HELP of {} before TYPE of {}", hn, n));
                    }
                    Some(h)
                }
                None => None,
            };
            fams.push(Fam { name: n.to_string(), help: h, kind, series: vec![] });
            have.clear();
        } else if l.starts_with('#') || l.is_empty() {
            return Err(format!("unexpected line {:?}", l));
        } else {
            if help.is_some() {
                return Err(format!("sample {:?} between HELP and TYPE", l));
            }
            let s = sample(l)?;
            let f = fams.last_mut().ok_or(format!("sample {:?} before any TYPE", l))?;
            let key = (s.name.clone(), {
                let mut v = s.labels.clone();
                v.sort();
                v
            });
            if have.contains(&key) {
                return Err(format!("series of line {:?} appears twice", l));
            }
            have.push(key);
            let part = s.name.strip_prefix(&f.name[..]).ok_or(format!("sample {:?} in family {}", l, f.name))?;
            let (hist, reserved) = match f.kind {
                MetricKind::Counter | MetricKind::Gauge => {
                    if !part.is_empty() {
                        return Err(format!("sample {:?} in family {}", l, f.name));
                    }
                    f.series.push(Series { labels: s.labels, ts: s.ts, val: Val::Num(s.value) });
                    continue;
                }
                MetricKind::Histogram => (true, "le"),
                MetricKind::Summary => (false, "quantile"),
            };
            let mut labels = s.labels.clone();
            let r = labels.iter().position(|x| x.0 == reserved).map(|i| labels.remove(i).1);
            let o = open.get_or_insert((labels.clone(), s.ts, vec![], None, None));
            if o.0 != labels {
                return Err(format!("line {:?} in the middle of series {:?}", l, o.0));
            }
            if o.1 != s.ts {
                return Err(format!("line {:?} has another timestamp than its series", l));
            }
            match (part, r) {
                (p, Some(r)) if p == if hist { "_bucket" } else { "" } => {
                    if o.3.is_some() || o.4.is_some() {
                        return Err(format!("line {:?} after sum or count", l));
                    }
                    o.2.push((number(&r)?, s.value))
                }
                ("_sum", None) if o.3.is_none() => o.3 = Some(s.value),
                ("_count", None) if o.4.is_none() => o.4 = Some(s.value),
                _ => return Err(format!("sample {:?} in family {} of kind {}", l, f.name, f.kind)),
            }
            if let (Some(sum), Some(count)) = (o.3, o.4) {
                let o = open.take().unwrap();
                if count < 0.0 || count.fract() != 0.0 {
                    return Err(format!("count {} in family {}", count, f.name));
                }
                let val = if hist {
                    if o.2.last().map(|b| b.0) != Some(f64::INFINITY) {
                        return Err(format!("histogram {} has no +Inf bucket at its end", f.name));
                    }
                    Val::Hist { buckets: o.2.into_iter().map(|(b, c)| (b, c as u64)).collect(), count: count as u64, sum }
                } else {
                    Val::Summ { q: o.2, count: count as u64, sum }
                };
                f.series.push(Series { labels: o.0, ts: o.1, val });
            }
        }
    }
    if open.is_some() || help.is_some() {
        return Err("the last family is incomplete".into());
    }
    if let Some(f) = fams.iter().find(|f| f.series.is_empty()) {
        return Err(format!("family {} has no samples", f.name));
    }
    Ok(fams)
}
