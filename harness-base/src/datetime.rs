//! C04 FAT dates, C05 FILETIME, C06 POSIX timestamps.

use keramics_datetime::*;
use pbt::*;

fn leap(year: i64) -> bool {
    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
}

const MONTH_DAYS: [i64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];

fn month_days(year: i64, month: usize) -> i64 {
    MONTH_DAYS[month - 1] + if month == 2 && leap(year) { 1 } else { 0 }
}

/// Days from 0000-01-01 of the proleptic Gregorian calendar to the start of a year.
fn days_before_year(year: i64) -> i64 {
    let y = year - 1;
    // Number of leap years in 0..=y, for y >= -1.
    365 * year + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + 1
}

fn day_number(year: i64, month: usize, day: i64) -> i64 {
    days_before_year(year) + (1..month).map(|m| month_days(year, m)).sum::<i64>() + day - 1
}

/// Calendar date of a day number, by search on the year.
fn civil(days: i64) -> (i64, usize, i64) {
    // 400 years have 146097 days.
    let cycles = days.div_euclid(146097);
    let days = days.rem_euclid(146097);
    let mut year = days / 366;
    loop {
        if days_before_year(year + 1) <= days {
            year += ((days - days_before_year(year)) / 366).max(1);
        } else {
            break;
        }
    }
    let mut rest = days - days_before_year(year);
    let mut month = 1;
    while rest >= month_days(year, month) {
        rest -= month_days(year, month);
        month += 1;
    }
    (year + 400 * cycles, month, rest + 1)
}

/// Year, month, day, hours, minutes, seconds.
fn gen_civil(g: &mut Gen, lo: i64, hi: i64) -> (i64, usize, i64, i64, i64, i64) {
    let year = match g.below_or(4) {
        0 => {
            // Around a century.
            let c = g.range((lo / 100) as u64, (hi / 100) as u64) as i64 * 100;
            (c + g.range(0, 2) as i64 - 1).clamp(lo, hi)
        }
        1 => {
            let c = g.range(0, 3) as i64;
            (1968 + c).clamp(lo, hi)
        }
        2 => if g.bool() { hi } else { lo },
        _ => g.range(lo as u64, hi as u64) as i64,
    };
    let month = *g.pick(&[1usize, 2, 3, 12, 4, 5, 6, 7, 8, 9, 10, 11]);
    let last = month_days(year, month);
    let day = match g.below_or(2) {
        0 => 1,
        1 => last,
        _ => g.range(1, last as u64) as i64,
    };
    let (h, m, s) = match g.below_or(2) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        _ => (g.range(0, 23) as i64, g.range(0, 59) as i64, g.range(0, 59) as i64),
    };
    (year, month, day, h, m, s)
}

fn iso(v: (i64, usize, i64, i64, i64, i64)) -> String {
    format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}", v.0, v.1, v.2, v.3, v.4, v.5)
}

fn classes(g: &mut Gen, v: (i64, usize, i64, i64, i64, i64)) {
    g.class_if(v.1 == 2 && v.2 == 29, "29 February");
    g.class_if(v.1 == 1 && v.2 == 1, "1 January");
    g.class_if(v.1 == 12 && v.2 == 31, "31 December");
    g.class_if(v.0 % 100 == 0, "century year");
    g.class_if(v.0 > 9000, "after year 9000");
}

// FAT

fn fat_values(g: &mut Gen) -> CaseResult {
    let date = g.below_or(0xffff) as u16;
    let want = format!("{:04}-{:02}-{:02}", 1980 + (date / 512), (date / 32) % 16, date % 32);
    g.nontrivial = date != 0;
    g.note(|| format!("FAT date {:#06x} is {}", date, want));
    let d = FatDate::new(date);
    check_eq!(d.to_iso8601_string(), want, "FAT date {:#06x}", date);
    check_eq!(d.to_string(), format!("{} ({:#06x})", want, date), "display of FAT date");
    check!(FatDate::from_bytes(&date.to_le_bytes()) == d, "FAT date {:#06x} from its little-endian bytes", date);

    // The same value as the time, with each fraction of the 2 seconds.
    let time = date;
    let day = 0x5821u16; // 2024-01-01
    let (h, m, s) = (time / 2048, (time / 32) % 64, (time % 32) * 2);
    let want = format!("2024-01-01T{:02}:{:02}:{:02}", h, m, s);
    let t = FatTimeDate::new(day, time);
    check_eq!(t.to_iso8601_string(), want, "FAT time {:#06x}", time);
    check_eq!(t.to_string(), format!("{} ({:#06x}:{:#06x})", want, day, time), "display of FAT time");
    let mut bytes = time.to_le_bytes().to_vec();
    bytes.extend_from_slice(&day.to_le_bytes());
    check!(FatTimeDate::from_bytes(&bytes) == t, "FAT time {:#06x} from bytes", time);
    Ok(())
}

fn fat_instants(g: &mut Gen) -> CaseResult {
    let mut v = gen_civil(g, 1980, 2107);
    v.5 -= v.5 % 2;
    let date = (((v.0 - 1980) << 9) | ((v.1 as i64) << 5) | v.2) as u16;
    let time = ((v.3 << 11) | (v.4 << 5) | (v.5 / 2)) as u16;
    let fraction = g.range(0, 199) as u8;
    classes(g, v);
    g.class_if(fraction >= 100, "odd second");
    g.nontrivial = fraction != 0;
    let want = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:02}", v.0, v.1, v.2, v.3, v.4, v.5 + (fraction / 100) as i64, fraction % 100);
    g.note(|| format!("date {:#06x} time {:#06x} fraction {}: {}", date, time, fraction, want));
    let t = FatTimeDate10Ms::new(date, time, fraction);
    check_eq!(t.to_iso8601_string(), want, "FAT date {:#06x} time {:#06x} fraction {}", date, time, fraction);
    check_eq!(t.to_string(), format!("{} ({:#06x}:{:#06x}:{:#04x})", want, date, time, fraction), "display");
    let mut bytes = vec![fraction];
    bytes.extend_from_slice(&time.to_le_bytes());
    bytes.extend_from_slice(&date.to_le_bytes());
    let tail = g.usize(0, 4);
    bytes.extend(vec![0xa5; tail]);
    check!(FatTimeDate10Ms::from_bytes(&bytes) == t, "FAT 10 ms timestamp from bytes {}", hex(&bytes));
    check_eq!(FatTimeDate::new(date, time).to_iso8601_string(), iso(v), "FAT date {:#06x} time {:#06x}", date, time);
    check!(FatTimeDate::from_bytes(&bytes[1..]) == FatTimeDate::new(date, time), "FAT timestamp from bytes");
    check!(FatDate::from_bytes(&bytes[3..]) == FatDate::new(date), "FAT date from bytes");
    Ok(())
}

pub static C04: Property = Property {
    id: "C04",
    rule: "every 16-bit FAT date and time value, and generated calendar instants 1980-2107 with every 10 ms fraction, encoded per the FAT specification; rendered text and byte decoding compared; non-trivial: non-zero value, non-zero fraction",
    assumptions: &["fraction values above 199 are outside of the FAT specification and not generated"],
    facets: &[
        Facet { name: "values", work: Work::Exhaustive(0x10000), case: fat_values },
        Facet { name: "instants", work: Work::Random(60_000, 2_000_000), case: fat_instants },
    ],
};

// FILETIME

fn check_filetime(timestamp: u64, want: &str) -> CaseResult {
    let f = Filetime::new(timestamp);
    check_eq!(f.to_iso8601_string(), want, "FILETIME {:#018x}", timestamp);
    check_eq!(f.to_string(), format!("{} (0x{:08x}:0x{:08x})", want, timestamp >> 32, timestamp & 0xffffffff), "display of FILETIME {:#018x}", timestamp);
    check!(Filetime::from_bytes(&timestamp.to_le_bytes()) == f, "FILETIME {:#018x} from bytes", timestamp);
    Ok(())
}

fn filetime_instants(g: &mut Gen) -> CaseResult {
    let v = gen_civil(g, 1601, 9999);
    let fraction = if g.bool() { g.range(0, 9999999) } else { *g.pick(&[0, 1, 9999999, 1000000]) };
    let days = day_number(v.0, v.1, v.2) - day_number(1601, 1, 1);
    let seconds = days * 86400 + v.3 * 3600 + v.4 * 60 + v.5;
    let timestamp = seconds as u64 * 10_000_000 + fraction;
    classes(g, v);
    g.nontrivial = days > 365;
    let want = format!("{}.{:07}", iso(v), fraction);
    g.note(|| format!("FILETIME {:#x} is {}", timestamp, want));
    check_filetime(timestamp, &want)
}

/// Every day from 1601-01-01 to 9999-12-31.
fn filetime_days(g: &mut Gen) -> CaseResult {
    let days = g.below_or(FILETIME_DAYS - 1) as i64;
    let (year, month, day) = civil(days + day_number(1601, 1, 1));
    g.nontrivial = days > 0;
    g.note(|| format!("day {} is {:04}-{:02}-{:02}", days, year, month, day));
    check_filetime(days as u64 * 864_000_000_000, &format!("{:04}-{:02}-{:02}T00:00:00.0000000", year, month, day))?;
    check_filetime((days as u64 + 1) * 864_000_000_000 - 1, &format!("{:04}-{:02}-{:02}T23:59:59.9999999", year, month, day))
}

const FILETIME_DAYS: u64 = 3_067_671; // 1601-01-01 to 9999-12-31

/// Any 64-bit value: in range values per the calendar, all others without failing.
fn filetime_any(g: &mut Gen) -> CaseResult {
    let timestamp = g.edgy(64);
    let seconds = timestamp / 10_000_000;
    let (year, month, day) = civil((seconds / 86400) as i64 + day_number(1601, 1, 1));
    g.nontrivial = timestamp > 1000;
    g.class_if(year > 9999, "after year 9999");
    let t = seconds % 86400;
    let want = format!("{:04}-{:02}-{:02}T{:02}:{:02}:{:02}.{:07}", year, month, day, t / 3600, (t / 60) % 60, t % 60, timestamp % 10_000_000);
    g.note(|| format!("FILETIME {:#x} is {}", timestamp, want));
    check_filetime(timestamp, &want)
}

pub static C05: Property = Property {
    id: "C05",
    rule: "calendar instants, every day of 1601-9999 (quick: a sample; thorough: all), and arbitrary 64-bit values, converted by an independent day count; non-trivial: more than a year after the epoch, not the epoch day, a value above 1000",
    assumptions: &["proleptic Gregorian calendar, no leap seconds"],
    facets: &[
        Facet { name: "instants", work: Work::Random(100_000, 2_000_000), case: filetime_instants },
        Facet { name: "days", work: Work::ExhaustiveThorough(FILETIME_DAYS, 200_000), case: filetime_days },
        Facet { name: "any_value", work: Work::Random(60_000, 1_000_000), case: filetime_any },
    ],
};

// POSIX

fn check_posix32(timestamp: i32) -> CaseResult {
    let days = (timestamp as i64).div_euclid(86400) + day_number(1970, 1, 1);
    let t = (timestamp as i64).rem_euclid(86400);
    let (year, month, day) = civil(days);
    let want = iso((year, month, day, t / 3600, (t / 60) % 60, t % 60));
    let p = PosixTime32::new(timestamp);
    check_eq!(p.to_iso8601_string(), want, "POSIX time {}", timestamp);
    check_eq!(p.to_string(), format!("{} ({})", want, timestamp), "display of POSIX time {}", timestamp);
    check!(PosixTime32::from_le_bytes(&timestamp.to_le_bytes()) == p, "POSIX time {} from little-endian bytes", timestamp);
    check!(PosixTime32::from_be_bytes(&timestamp.to_be_bytes()) == p, "POSIX time {} from big-endian bytes", timestamp);
    Ok(())
}

/// Every day of the 32-bit range, first and last second.
fn posix32_days(g: &mut Gen) -> CaseResult {
    let index = g.below_or(49_710) as i64;
    let days = index - 24_855;
    g.nontrivial = days != 0;
    g.class_if(days < 0, "before the epoch");
    g.note(|| format!("day {}", days));
    for s in [0, 1, 43_200, 86_399] {
        let v = days * 86400 + s;
        if let Ok(v) = i32::try_from(v) {
            check_posix32(v)?;
        }
    }
    Ok(())
}

fn posix32_any(g: &mut Gen) -> CaseResult {
    let timestamp = g.edgy(32) as u32 as i32;
    g.nontrivial = timestamp != 0;
    g.class_if(timestamp < 0, "before the epoch");
    g.note(|| format!("POSIX time {}", timestamp));
    check_posix32(timestamp)
}

fn posix64(g: &mut Gen) -> CaseResult {
    let v = gen_civil(g, 1, 9999);
    let fraction = if g.bool() { g.range(0, 999_999_999) } else { *g.pick(&[0, 1, 999_999_999, 100_000_000]) } as u32;
    let timestamp = (day_number(v.0, v.1, v.2) - day_number(1970, 1, 1)) * 86400 + v.3 * 3600 + v.4 * 60 + v.5;
    classes(g, v);
    g.class_if(timestamp < 0, "before the epoch");
    g.nontrivial = timestamp != 0;
    let want = format!("{}.{:09}", iso(v), fraction);
    g.note(|| format!("POSIX time {} fraction {} is {}", timestamp, fraction, want));
    let p = PosixTime64Ns::new(timestamp, fraction);
    check_eq!(p.to_iso8601_string(), want, "POSIX time {}.{:09}", timestamp, fraction);
    check_eq!(p.to_string(), format!("{} ({}.{:09})", want, timestamp, fraction), "display of POSIX time {}.{:09}", timestamp, fraction);
    Ok(())
}

/// Any 64-bit value: years 0 and later per the calendar, all others without failing.
fn posix64_any(g: &mut Gen) -> CaseResult {
    let timestamp = g.edgy(64) as i64;
    let fraction = g.range(0, 999_999_999) as u32;
    let t = timestamp.rem_euclid(86400);
    let (year, month, day) = civil(timestamp.div_euclid(86400) + day_number(1970, 1, 1));
    g.nontrivial = timestamp != 0;
    g.class_if(year < 0, "before year 0");
    g.class_if(year > 9999, "after year 9999");
    g.note(|| format!("POSIX time {} in year {}", timestamp, year));
    let got = PosixTime64Ns::new(timestamp, fraction).to_iso8601_string();
    if year >= 0 {
        let want = format!("{}.{:09}", iso((year, month, day, t / 3600, (t / 60) % 60, t % 60)), fraction);
        check_eq!(got, want, "POSIX time {}.{:09}", timestamp, fraction);
    } else {
        let tail = format!("-{:02}-{:02}T{:02}:{:02}:{:02}.{:09}", month, day, t / 3600, (t / 60) % 60, t % 60, fraction);
        check!(got.starts_with('-') && got.ends_with(&tail), "POSIX time {} is shown as {}, expected it to end with {}", timestamp, got, tail);
    }
    Ok(())
}

pub static C06: Property = Property {
    id: "C06",
    rule: "every day of the signed 32-bit range with its first and last second, arbitrary 32-bit values, and calendar instants of the years 1-9999 with nanoseconds and arbitrary values as 64-bit timestamps, compared with an independent day count; non-trivial: not the epoch",
    assumptions: &["proleptic Gregorian calendar, no leap seconds"],
    facets: &[
        Facet { name: "days32", work: Work::Exhaustive(49_711), case: posix32_days },
        Facet { name: "any32", work: Work::Random(60_000, 2_000_000), case: posix32_any },
        Facet { name: "instants64", work: Work::Random(100_000, 2_000_000), case: posix64 },
        Facet { name: "any64", work: Work::Random(60_000, 1_000_000), case: posix64_any },
    ],
};
