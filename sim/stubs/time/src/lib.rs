//! Stand-in for the time crate: UTC timestamps formatted as RFC 2822.
#[derive(Debug)]
pub struct OffsetDateTime(i64);
#[derive(Debug)]
pub struct Error;
impl OffsetDateTime {
    pub fn from_unix_timestamp_nanos(n: i128) -> Result<Self, Error> {
        let s = n.div_euclid(1_000_000_000);
        if !(-377705116800..=253402300799).contains(&s) {
            return Err(Error);
        }
        Ok(OffsetDateTime(s as i64))
    }
    pub fn format(&self, _f: &format_description::well_known::Rfc2822) -> Result<String, Error> {
        let (days, secs) = (self.0.div_euclid(86400), self.0.rem_euclid(86400));
        // civil from days
        let z = days + 719468;
        let era = z.div_euclid(146097);
        let doe = z.rem_euclid(146097);
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = doy - (153 * mp + 2) / 5 + 1;
        let m = if mp < 10 { mp + 3 } else { mp - 9 };
        let y = yoe + era * 400 + (m <= 2) as i64;
        if y < 1900 {
            return Err(Error);
        }
        const M: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
        const W: [&str; 7] = ["Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"];
        Ok(format!(
            "{}, {:02} {} {:04} {:02}:{:02}:{:02} +0000",
            W[days.rem_euclid(7) as usize], d, M[m as usize - 1], y, secs / 3600, secs / 60 % 60, secs % 60
        ))
    }
}
pub mod format_description {
    pub mod well_known {
        pub struct Rfc2822;
    }
}
