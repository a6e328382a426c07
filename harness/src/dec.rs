//! Exact decimals of the reference model, independent of the code under test.

use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
pub struct Dec {
    pub m: i128,
    pub s: u32,
}

const MAX: i128 = 79_228_162_514_264_337_593_543_950_335; // 96 bits

impl Dec {
    pub const ZERO: Dec = Dec { m: 0, s: 0 };
    pub const ONE: Dec = Dec { m: 1, s: 0 };

    pub fn parse(text: &str) -> Option<Dec> {
        let (neg, body) = match text.strip_prefix('-') {
            Some(rest) => (true, rest),
            None => (false, text),
        };
        let (int, frac) = match body.split_once('.') {
            Some((a, b)) => (a, b),
            None => (body, ""),
        };
        if int.is_empty() && frac.is_empty() {
            return None;
        }
        if !int.bytes().chain(frac.bytes()).all(|b| b.is_ascii_digit()) {
            return None;
        }
        let digits = format!("{}{}", int, frac);
        if digits.trim_start_matches('0').len() > 37 {
            return None;
        }
        let m: i128 = digits.parse().ok()?;
        Some(Dec {
            m: if neg { -m } else { m },
            s: frac.len() as u32,
        })
    }

    fn norm(self) -> Dec {
        let mut d = self;
        if d.m == 0 {
            return Dec::ZERO;
        }
        while d.s > 0 && d.m % 10 == 0 {
            d.m /= 10;
            d.s -= 1;
        }
        d
    }

    fn align(a: Dec, b: Dec) -> Option<(i128, i128, u32)> {
        let (a, b) = (a.norm(), b.norm());
        let s = a.s.max(b.s);
        let x = a.m.checked_mul(10i128.checked_pow(s - a.s)?)?;
        let y = b.m.checked_mul(10i128.checked_pow(s - b.s)?)?;
        Some((x, y, s))
    }

    pub fn add(self, o: Dec) -> Option<Dec> {
        let (x, y, s) = Dec::align(self, o)?;
        Some(Dec {
            m: x.checked_add(y)?,
            s,
        })
    }
    pub fn neg(self) -> Dec {
        Dec {
            m: -self.m,
            s: self.s,
        }
    }
    pub fn abs(self) -> Dec {
        Dec {
            m: self.m.abs(),
            s: self.s,
        }
    }
    pub fn mul(self, o: Dec) -> Option<Dec> {
        let (a, b) = (self.norm(), o.norm());
        Some(Dec {
            m: a.m.checked_mul(b.m)?,
            s: a.s + b.s,
        })
    }
    /// The product with all digits as written, none dropped.
    pub fn raw_mul(self, o: Dec) -> Option<Dec> {
        Some(Dec {
            m: self.m.checked_mul(o.m)?,
            s: self.s + o.s,
        })
    }
    /// Far from the limits of a 96 bit decimal.
    pub fn small(&self) -> bool {
        let d = self.norm();
        d.s <= 12 && d.m.abs() < 1_000_000_000_000_000_000_000_000
    }
    pub fn is_zero(&self) -> bool {
        self.m == 0
    }
    pub fn neg_sign(&self) -> bool {
        self.m < 0
    }
    /// Fits a 96 bit decimal without rounding.
    pub fn fits(&self) -> bool {
        let d = *self;
        d.m.abs() <= MAX && d.s <= 28
    }
    pub fn to_string(self) -> String {
        let d = self.norm();
        let digits = d.m.abs().to_string();
        let digits = format!("{:0>1$}", digits, d.s as usize + 1);
        let (i, f) = digits.split_at(digits.len() - d.s as usize);
        let sign = if d.m < 0 { "-" } else { "" };
        if f.is_empty() {
            format!("{}{}", sign, i)
        } else {
            format!("{}{}.{}", sign, i, f)
        }
    }
    pub fn to_rust(self) -> Option<rust_decimal::Decimal> {
        rust_decimal::Decimal::from_str_exact(&self.to_string()).ok()
    }
    pub fn from_rust(d: rust_decimal::Decimal) -> Dec {
        Dec::parse(&d.to_string()).unwrap_or(Dec::ZERO)
    }
    /// self / o, rounded.
    pub fn div(self, o: Dec) -> Option<Dec> {
        let q = self.to_rust()?.checked_div(o.to_rust()?)?;
        Some(Dec::from_rust(q))
    }
    /// Rounded product.
    pub fn mul_approx(self, o: Dec) -> Option<Dec> {
        let q = self.to_rust()?.checked_mul(o.to_rust()?)?;
        Some(Dec::from_rust(q))
    }
    pub fn f64(&self) -> f64 {
        self.m as f64 / 10f64.powi(self.s as i32)
    }
    /// Equal up to 1e-12 of the larger (and of one).
    pub fn close(&self, o: &Dec) -> bool {
        if self == o {
            return true;
        }
        let (Some(a), Some(b)) = (self.round(24).to_rust(), o.round(24).to_rust()) else {
            return false;
        };
        let diff = (a - b).abs();
        let big = a.abs().max(b.abs()).max(rust_decimal::Decimal::ONE);
        diff <= big * rust_decimal::Decimal::new(1, 12)
    }
    fn round(self, s: u32) -> Dec {
        let mut d = self.norm();
        while d.s > s || d.m.abs() > MAX {
            if d.s == 0 {
                break;
            }
            d.m /= 10;
            d.s -= 1;
        }
        d
    }
}

impl PartialEq for Dec {
    fn eq(&self, o: &Dec) -> bool {
        let (a, b) = (self.norm(), o.norm());
        a.m == b.m && a.s == b.s
    }
}
impl Eq for Dec {}
impl PartialOrd for Dec {
    fn partial_cmp(&self, o: &Dec) -> Option<Ordering> {
        Dec::align(*self, *o).map(|(x, y, _)| x.cmp(&y))
    }
}
