//! times and durations
use crate::se::*;
use starry::utils::Time;

pub fn list(v: &mut Vec<(&'static str, extern "C" fn())>) {
    v.push(("h_time_units", h_time_units));
    v.push(("h_time_far", h_time_far));
    v.push(("h_time_add", h_time_add));
    v.push(("h_time_day", h_time_day));
    v.push(("h_time_date", h_time_date));
    v.push(("h_time_text", h_time_text));
}
/// a number of either sign: 16 bits, also far from zero
fn num() -> i64 {
    let x = [0i64, 1_699_999_999, 4_102_444_800][choice(deep(2, 3))] + u16_() as i64;
    if choice(2) == 0 {
        x
    } else {
        !x
    }
}
/// conversion from and to each unit
#[no_mangle]
pub extern "C" fn h_time_units() {
    let unit = choice(5);
    let x = num();
    // the cases the arithmetic distinguishes, so that each is decided on its own
    let t = match unit {
        0 => Time::from_minutes(x),
        1 => Time::from_secs(x),
        2 => {
            split(x, 1000);
            Time::from_milliseconds(x)
        }
        3 => {
            split(x, 1_000_000);
            Time::from_microseconds(x)
        }
        _ => {
            split(x, 1_000_000_000);
            Time::from_nanoseconds(x)
        }
    };
    match unit {
        0 => match choice(5) {
            0 => check(t.num_minutes() == x, "minutes"),
            1 => check(t.num_seconds() == x * 60, "minutes in seconds"),
            2 => check(t.num_milliseconds() == x * 60_000, "minutes in milliseconds"),
            3 => check(t.num_microseconds() == Some(x * 60_000_000), "minutes in microseconds"),
            _ => down(t.num_hours(), x, 60, "minutes in hours"),
        },
        1 => match choice(8) {
            0 => check(t.num_seconds() == x, "seconds"),
            1 => check(t.num_milliseconds() == x * 1000, "seconds in milliseconds"),
            2 => check(t.num_microseconds() == Some(x * 1_000_000), "seconds in microseconds"),
            3 => check(t.num_nanoseconds() == Some(x * 1_000_000_000), "seconds in nanoseconds"),
            4 => down(t.num_minutes(), x, 60, "seconds in minutes"),
            5 => down(t.num_hours(), x, 3600, "seconds in hours"),
            6 => down(t.num_days(), x, 86400, "seconds in days"),
            _ => down(t.num_weeks(), x, 604800, "seconds in weeks"),
        },
        2 => match choice(4) {
            0 => check(t.num_milliseconds() == x, "milliseconds"),
            1 => check(t.num_microseconds() == Some(x * 1000), "milliseconds in microseconds"),
            2 => check(t.num_nanoseconds() == Some(x * 1_000_000), "milliseconds in nanoseconds"),
            _ => down(t.num_seconds(), x, 1000, "milliseconds in seconds"),
        },
        3 => match choice(4) {
            0 => check(t.num_microseconds() == Some(x), "microseconds"),
            1 => check(t.num_nanoseconds() == Some(x * 1000), "microseconds in nanoseconds"),
            2 => down(t.num_milliseconds(), x, 1000, "microseconds in milliseconds"),
            _ => down(t.num_seconds(), x, 1_000_000, "microseconds in seconds"),
        },
        _ => match choice(3) {
            0 => check(t.num_nanoseconds() == Some(x), "nanoseconds"),
            1 => match t.num_microseconds() {
                Some(y) => down(y, x, 1000, "nanoseconds in microseconds"),
                None => fail("nanoseconds in microseconds"),
            },
            _ => down(t.num_seconds(), x, 1_000_000_000, "nanoseconds in seconds"),
        },
    }
    reach("end");
}
/// conversions far from now: around the last nanosecond an i64 counts (year 2262), and in year 9999
#[no_mangle]
pub extern "C" fn h_time_far() {
    let unit = choice(4);
    let neg = choice(2) == 1;
    // the unit, in seconds and below
    let per = [1i64, 1000, 1_000_000, 1][unit];
    let base = [9_223_372_036i64, 253_402_300_799][choice(2)];
    let x = base * per - 512 + (u16_() & 1023) as i64;
    let x = if neg { -x } else { x };
    split(x, per);
    let t = match unit {
        0 => Time::from_secs(x),
        1 => Time::from_milliseconds(x),
        2 => Time::from_microseconds(x),
        // a time moved there
        _ => {
            let mut t = Time::from_secs(x - if neg { -77 } else { 77 });
            if neg {
                t.sub_seconds(77)
            } else {
                t.add_seconds(77)
            }
            t
        }
    };
    match choice(5) {
        0 => down(t.num_seconds(), x, per, "seconds far from now"),
        1 => {
            let ms = t.num_milliseconds();
            if per <= 1000 {
                check(ms == x * (1000 / per), "milliseconds far from now")
            } else {
                down(ms, x, per / 1000, "milliseconds far from now")
            }
        }
        2 => check(t.num_microseconds() == Some(x * (1_000_000 / per)), "microseconds far from now"),
        3 => {
            // nanoseconds, or none where they overflow
            let k = 1_000_000_000 / per;
            let fits = (x <= i64::MAX / k) & (x >= i64::MIN / k);
            match t.num_nanoseconds() {
                Some(y) => check(fits & (y == x.wrapping_mul(k)), "nanoseconds far from now"),
                None => check(!fits, "nanoseconds far from now are given while they fit"),
            }
        }
        _ => down(t.num_days(), x, per * 86400, "days far from now"),
    }
    reach("end");
}
/// whether `per` divides `x`, decided for the path
fn split(x: i64, per: i64) {
    if x % per == 0 {
        observe(&[1]);
    }
}
/// `y` is `x` in a unit `per` times as large, cut towards zero
fn down(y: i64, x: i64, per: i64, id: &'static str) {
    check(y == x / per, id);
}
/// moving a time by a duration and back
#[no_mangle]
pub extern "C" fn h_time_add() {
    let unit = choice(9);
    let n = num();
    let back = choice(2) == 1;
    // the time: whole seconds, or thousandths where the step is below a second
    let fine = unit < 3;
    let b = if fine { [0, 999, -1, -1000, 1_650_000_000_123, 60_001][choice(6)] } else { num() };
    if fine {
        split(n, [1_000_000_000, 1_000_000, 1000][unit]);
    }
    let t0 = if fine { Time::from_milliseconds(b) } else { Time::from_secs(b) };
    let mut t = t0;
    // length of one step, in nanoseconds or in seconds
    let per: i64 = [1, 1000, 1_000_000, 1, 60, 3600, 86400, 604800, 60][unit];
    match (unit, back) {
        (0, false) => t.add_nanoseconds(n),
        (1, false) => t.add_microseconds(n),
        (2, false) => t.add_milliseconds(n),
        (3, false) => t.add_seconds(n),
        (4, false) => t.add_minutes(n),
        (5, false) => t.add_hours(n),
        (6, false) => t.add_days(n),
        (7, false) => t.add_weeks(n),
        (8, false) => t.add(Time::from_minutes(n).duration()),
        (0, true) => t.sub_nanoseconds(n),
        (1, true) => t.sub_microseconds(n),
        (2, true) => t.sub_milliseconds(n),
        (3, true) => t.sub_seconds(n),
        (4, true) => t.sub_minutes(n),
        (5, true) => t.sub_hours(n),
        (6, true) => t.sub_days(n),
        (7, true) => t.sub_weeks(n),
        (_, _) => t.sub(Time::from_minutes(n).duration()),
    }
    let step = if back { -(n * per) } else { n * per };
    if choice(2) == 0 {
        if fine {
            check(t.num_nanoseconds() == Some(b * 1_000_000 + step), "moved by the duration");
        } else {
            check(t.num_seconds() == b + step, "moved by the duration");
        }
    } else {
        match (unit, back) {
            (0, true) => t.add_nanoseconds(n),
            (1, true) => t.add_microseconds(n),
            (2, true) => t.add_milliseconds(n),
            (3, true) => t.add_seconds(n),
            (4, true) => t.add_minutes(n),
            (5, true) => t.add_hours(n),
            (6, true) => t.add_days(n),
            (7, true) => t.add_weeks(n),
            (8, true) => t.add(Time::from_minutes(n).duration()),
            (0, false) => t.sub_nanoseconds(n),
            (1, false) => t.sub_microseconds(n),
            (2, false) => t.sub_milliseconds(n),
            (3, false) => t.sub_seconds(n),
            (4, false) => t.sub_minutes(n),
            (5, false) => t.sub_hours(n),
            (6, false) => t.sub_days(n),
            (7, false) => t.sub_weeks(n),
            (_, _) => t.sub(Time::from_minutes(n).duration()),
        }
        check(t == t0, "moved and moved back");
    }
    reach("end");
}
const FMT: [&str; 4] = ["%Y-%m-%d %H:%M:%S", "%a, %d %b %Y %H:%M:%S GMT", "%Y-%m-%dT%H:%M:%S", "%y/%m/%d %H:%M:%S"];
/// where `FMT` puts the time of day and the date
const POS: [usize; 4] = [11, 17, 11, 9];

fn two(b: &[u8], at: usize) -> u32 {
    (b[at].wrapping_sub(b'0')) as u32 * 10 + b[at + 1].wrapping_sub(b'0') as u32
}
/// days before 1970-01-01 negative; proleptic Gregorian calendar
fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = (if y >= 0 { y } else { y - 399 }) / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
/// any second of some days: text of the time of day, and back
#[no_mangle]
pub extern "C" fn h_time_day() {
    let day = [0i64, 18993, 135140, 25202][choice(deep(3, 4))];
    let half = choice(2) as i64;
    // 65536 seconds from midnight, or up to midnight
    let s = u16_() as i64 + half * (86400 - 65536);
    let t = Time::from_secs(day * 86400 + s);
    let k = choice(4);
    let f = match k {
        0 => t.to_string(),
        2 => Time::format_data(t, FMT[2]),
        k => t.format_string(FMT[k]),
    };
    let b = f.as_bytes();
    observe(b);
    check(b.len() == POS[k] + 8 + if k == 1 { 4 } else { 0 }, "length of the text");
    let at = POS[k];
    check((b[at + 2] == b':') & (b[at + 5] == b':'), "time of day separators");
    for i in [0, 1, 3, 4, 6, 7] {
        check((b[at + i] >= b'0') & (b[at + i] <= b'9'), "time of day digits");
    }
    let (h, m, c) = (two(b, at), two(b, at + 3), two(b, at + 6));
    check((m < 60) & (c < 60), "minutes and seconds below sixty");
    check((h * 3600 + m * 60 + c) as i64 == s, "time of day of the text");
    match Time::parse_from_str(&f, FMT[k]) {
        Ok(u) => {
            if k != 3 || (0..25202).contains(&day) {
                check(u == t, "parse of format")
            }
        }
        Err(_) => fail("a formatted time is parsed"),
    }
    reach("end");
}
/// any day in some windows of 256 days, at a fixed time of day
#[no_mangle]
pub extern "C" fn h_time_date() {
    // around the ends of years and the ends of February, with and without a leap day
    let base = [-100i64, 19650, 10900, 47400, 46, -719162, -25600, 106650, 2932640][choice(deep(4, 9))];
    let d = base + u8_() as i64;
    let k = choice(deep(2, 3));
    let sec = [45296i64, 0, 86399][k];
    let t = Time::from_secs(d * 86400 + sec);
    let f = t.format_string(FMT[k]);
    let b = f.as_bytes();
    observe(b);
    check(b.len() == POS[k] + 8 + if k == 1 { 4 } else { 0 }, "length of the text");
    let at = POS[k];
    let (h, mi, c) = (two(b, at), two(b, at + 3), two(b, at + 6));
    check(h as i64 * 3600 + mi as i64 * 60 + c as i64 == sec, "time of day of the text");
    if k != 1 {
        let y = two(b, 0) as i64 * 100 + two(b, 2) as i64;
        let (m, dd) = (two(b, 5) as i64, two(b, 8) as i64);
        check((m >= 1) & (m <= 12) & (dd >= 1) & (dd <= 31), "month and day in range");
        check(days(y, m, dd) == d, "date of the text");
    } else {
        const WD: &[u8] = b"ThuFriSatSunMonTueWed";
        const MO: &[u8] = b"JanFebMarAprMayJunJulAugSepOctNovDec";
        let w = (d + 7 * 200_000) % 7;
        let y = two(b, 12) as i64 * 100 + two(b, 14) as i64;
        let mut m = 0;
        let mut wd = 7;
        for i in 0..12 {
            if b[8..11] == MO[3 * i..3 * i + 3] {
                m = i as i64 + 1;
            }
        }
        for i in 0..7 {
            if b[..3] == WD[3 * i..3 * i + 3] {
                wd = i as i64;
            }
        }
        check(wd == w, "day of the week");
        check((m >= 1) && days(y, m, two(b, 5) as i64) == d, "date of the text");
    }
    match Time::parse_from_str(&f, FMT[k]) {
        Ok(u) => check(u == t, "parse of format"),
        Err(_) => fail("a formatted time is parsed"),
    }
    reach("end");
}
/// texts with arbitrary digits in one field: read exactly when they name a time
#[no_mangle]
pub extern "C" fn h_time_text() {
    let field = choice(5);
    let date = field == 0 || field == 4;
    let k = [0, 2][if date { 0 } else { choice(2) }];
    let year = [2024i64, 2023, 1900, 2000, 1969, 9999, 2262][if date { choice(7) } else { choice(2) }];
    let mut t = format!("{:04}-02-11{}03:04:05", year, if k == 0 { ' ' } else { 'T' }).into_bytes();
    let month = [2u8, 1, 4, 12][if field == 0 { choice(4) } else { 0 }];
    t[5] = b'0' + month / 10;
    t[6] = b'0' + month % 10;
    let at = [8, 11, 14, 17, 5][field];
    let d = bytes_in(2, &[(b'0', b'9')]);
    t[at] = d[0];
    t[at + 1] = d[1];
    let v = two(&t, at);
    let leap = year % 4 == 0 && (year % 100 != 0 || year % 400 == 0);
    let last = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][month as usize - 1];
    let good = match field {
        0 => (v >= 1) & (v <= last),
        1 => v < 24,
        2 | 3 => v < 60,
        _ => (v >= 1) & (v <= 12),
    };
    // a sixtieth second is left open
    assume((field != 3) | (v != 60));
    let r = Time::parse_from_str(std::str::from_utf8(&t).unwrap_or(""), FMT[k]);
    check(r.is_ok() == good, "read exactly when it names a time");
    if let Ok(u) = r {
        let n = |x: usize| two(&t, x) as i64;
        let want = days(year, n(5), n(8)) * 86400 + n(11) * 3600 + n(14) * 60 + n(17);
        check(u.num_seconds() == want, "the time the text names");
        check(u.num_milliseconds() == want * 1000, "no fraction");
        reach("ok");
    } else {
        reach("err");
    }
    reach("end");
}
