//! A terminal emulator with as many rows as are needed, and the layout a screen is expected to show.

use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cell {
    Blank,
    /// a character and its combining ones, its width, how it is drawn
    Glyph(String, u8, u32),
    /// right half of a wide character
    Tail,
}

#[derive(Clone, Debug)]
pub struct Screen {
    pub w: usize,
    pub rows: Vec<Vec<Cell>>,
    pub r: usize,
    /// == w: the row is full and the next character wraps
    pub c: usize,
    /// how characters are drawn now: the terminal's attributes, or (on an expected screen) what
    /// the character belongs to
    pub attr: u32,
}

impl Screen {
    pub fn new(w: usize) -> Screen {
        Screen { w, rows: vec![vec![Cell::Blank; w]], r: 0, c: 0, attr: 0 }
    }
    fn need(&mut self, r: usize) {
        while self.rows.len() <= r {
            self.rows.push(vec![Cell::Blank; self.w]);
        }
    }
    fn wipe(&mut self, r: usize, c: usize) {
        // a half-overwritten wide character disappears as a whole
        match self.rows[r][c] {
            Cell::Tail if c > 0 => self.rows[r][c - 1] = Cell::Blank,
            Cell::Glyph(_, 2, _) if c + 1 < self.w => self.rows[r][c + 1] = Cell::Blank,
            _ => {}
        }
        self.rows[r][c] = Cell::Blank;
    }
    pub fn put(&mut self, ch: char) {
        let k = ch.width().unwrap_or(0);
        if k == 0 {
            // joins the character before it
            let mut c = self.c;
            while c > 0 {
                c -= 1;
                match &mut self.rows[self.r][c] {
                    Cell::Glyph(s, ..) => {
                        s.push(ch);
                        return;
                    }
                    Cell::Tail => continue,
                    Cell::Blank => return,
                }
            }
            return;
        }
        if self.c + k > self.w {
            self.r += 1;
            self.c = 0;
        }
        self.need(self.r);
        for i in 0..k {
            if self.c + i < self.w {
                let (r, c) = (self.r, self.c + i);
                self.wipe(r, c);
            }
        }
        let (r, c) = (self.r, self.c);
        self.rows[r][c] = Cell::Glyph(ch.to_string(), k as u8, self.attr);
        if k == 2 && c + 1 < self.w {
            self.rows[r][c + 1] = Cell::Tail;
        }
        self.c += k;
    }
    pub fn puts(&mut self, s: &str) {
        for c in s.chars() {
            self.put(c);
        }
    }
    pub fn next_row(&mut self) {
        self.r += 1;
        self.c = 0;
        let r = self.r;
        self.need(r);
    }
    /// Where the next character goes.
    pub fn cursor(&self) -> (usize, usize) {
        (self.r, self.c)
    }
    /// One row as text.
    pub fn row(&self, r: usize) -> String {
        self.rows
            .get(r)
            .map(|row| {
                row.iter()
                    .map(|c| match c {
                        Cell::Blank => " ",
                        Cell::Glyph(s, ..) => s.as_str(),
                        Cell::Tail => "",
                    })
                    .collect::<String>()
            })
            .unwrap_or_default()
    }
    fn norm(c: Option<&Cell>) -> Cell {
        match c {
            None | Some(Cell::Blank) => Cell::Blank,
            Some(Cell::Glyph(s, ..)) if s == " " => Cell::Blank,
            Some(Cell::Glyph(s, k, _)) => Cell::Glyph(s.clone(), *k, 0),
            Some(x) => x.clone(),
        }
    }
    /// First difference between two screens' contents.
    pub fn differs(&self, want: &Screen) -> Option<(usize, usize)> {
        for r in 0..self.rows.len().max(want.rows.len()) {
            for c in 0..self.w {
                let a = Self::norm(self.rows.get(r).map(|x| &x[c]));
                let b = Self::norm(want.rows.get(r).map(|x| &x[c]));
                if a != b {
                    return Some((r, c));
                }
            }
        }
        None
    }
    /// The attributes of the characters that belong to a part of the expected screen.
    pub fn drawn_as(&self, want: &Screen, part: u32) -> std::collections::BTreeSet<u32> {
        let mut v = std::collections::BTreeSet::new();
        for (a, b) in self.rows.iter().zip(&want.rows) {
            for (a, b) in a.iter().zip(b) {
                match (a, b) {
                    (Cell::Glyph(s, _, x), Cell::Glyph(_, _, y)) if *y == part && s != " " => {
                        v.insert(*x);
                    }
                    _ => {}
                }
            }
        }
        v
    }
    pub fn dump(&self) -> String {
        let n = self.rows.iter().rposition(|r| r.iter().any(|c| Self::norm(Some(c)) != Cell::Blank)).map_or(0, |i| i + 1);
        let v: Vec<String> = (0..n.max(self.r + 1)).map(|r| format!("{:?}", self.row(r).trim_end())).collect();
        format!("[{}] cursor {:?}", v.join(", "), (self.r, self.c))
    }
}

#[derive(Clone, Debug, PartialEq)]
enum St {
    Ground,
    Esc,
    Csi(String),
    Osc,
    /// a character set is being chosen
    Set,
}

#[derive(Clone, Debug)]
pub struct Vt {
    pub s: Screen,
    st: St,
    utf: Vec<u8>,
    /// sequences this terminal does not know
    pub unknown: Vec<String>,
    /// where the cursor was saved
    saved: (usize, usize),
}

impl Vt {
    pub fn new(w: usize) -> Vt {
        Vt { s: Screen::new(w), st: St::Ground, utf: vec![], unknown: vec![], saved: (0, 0) }
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.utf.push(*b);
            match std::str::from_utf8(&self.utf) {
                Ok(s) => {
                    let c = s.chars().next().unwrap();
                    self.utf.clear();
                    self.char(c);
                }
                Err(e) if e.error_len().is_some() => {
                    self.unknown.push(format!("bytes {:?}", self.utf));
                    self.utf.clear();
                }
                Err(_) => {}
            }
        }
    }
    fn char(&mut self, c: char) {
        match std::mem::replace(&mut self.st, St::Ground) {
            St::Ground => match c {
                '\x1b' => self.st = St::Esc,
                '\r' => self.s.c = 0,
                '\n' => {
                    let col = self.s.c;
                    self.s.next_row();
                    self.s.c = col.min(self.s.w.saturating_sub(1));
                }
                '\x08' => self.s.c = self.s.c.min(self.s.w - 1).saturating_sub(1),
                c if (c as u32) < 32 || c as u32 == 127 => {}
                c => self.s.put(c),
            },
            St::Esc => match c {
                '[' => self.st = St::Csi(String::new()),
                ']' => self.st = St::Osc,
                '(' | ')' | '*' | '+' => self.st = St::Set,
                // (the end of an operating system command)
                '\\' => {}
                '=' | '>' => {}
                '7' => self.saved = (self.s.r, self.s.c),
                '8' => {
                    self.s.r = self.saved.0;
                    self.s.c = self.saved.1;
                }
                _ => self.unknown.push(format!("ESC {}", c)),
            },
            St::Osc => {
                if c == '\x1b' {
                    self.st = St::Esc
                } else if c != '\x07' {
                    self.st = St::Osc
                }
            }
            St::Set => {}
            St::Csi(mut p) => {
                if c.is_ascii_alphabetic() {
                    self.csi(&p, c)
                } else {
                    p.push(c);
                    self.st = St::Csi(p);
                }
            }
        }
    }
    fn csi(&mut self, p: &str, f: char) {
        if p.starts_with('?') {
            return;
        }
        let n: usize = p.split(';').next().and_then(|x| x.parse().ok()).unwrap_or(0);
        let s = &mut self.s;
        let at = s.c.min(s.w - 1);
        let n1 = n.max(1);
        match f {
            'A' => {
                s.r = s.r.saturating_sub(n1);
                s.c = at;
            }
            'B' => {
                s.r += n1;
                s.c = at;
                let r = s.r;
                s.need(r);
            }
            'C' => s.c = (at + n1).min(s.w - 1),
            'D' => s.c = at.saturating_sub(n1),
            'H' => {
                let mut it = p.split(';');
                let r: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
                let c: usize = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
                s.r = r.max(1) - 1;
                s.c = (c.max(1) - 1).min(s.w - 1);
                let r = s.r;
                s.need(r);
            }
            'J' => match n {
                0 => {
                    for c in at..s.w {
                        let r = s.r;
                        s.wipe(r, c);
                    }
                    s.rows.truncate(s.r + 1);
                }
                2 => {
                    let (r, w) = (s.r, s.w);
                    s.rows = vec![vec![Cell::Blank; w]; r + 1];
                }
                1 => {
                    for r in 0..s.r {
                        for c in 0..s.w {
                            s.wipe(r, c);
                        }
                    }
                    for c in 0..=at {
                        let r = s.r;
                        s.wipe(r, c);
                    }
                }
                _ => self.unknown.push(format!("CSI {}J", p)),
            },
            'K' => match n {
                0 => {
                    for c in at..s.w {
                        let r = s.r;
                        s.wipe(r, c);
                    }
                }
                2 => {
                    for c in 0..s.w {
                        let r = s.r;
                        s.wipe(r, c);
                    }
                }
                1 => {
                    for c in 0..=at {
                        let r = s.r;
                        s.wipe(r, c);
                    }
                }
                _ => self.unknown.push(format!("CSI {}K", p)),
            },
            'E' | 'F' => {
                s.r = if f == 'E' { s.r + n1 } else { s.r.saturating_sub(n1) };
                s.c = 0;
                let r = s.r;
                s.need(r);
            }
            'd' => {
                s.r = n1 - 1;
                let r = s.r;
                s.need(r);
            }
            'X' => {
                for c in at..(at + n1).min(s.w) {
                    let r = s.r;
                    s.wipe(r, c);
                }
            }
            's' => self.saved = (s.r, s.c),
            'u' => {
                s.r = self.saved.0;
                s.c = self.saved.1;
            }
            'G' => s.c = (n1 - 1).min(s.w - 1),
            'm' => s.attr = sgr(s.attr, p),
            _ => self.unknown.push(format!("CSI {}{}", p, f)),
        }
    }
}

/// The attributes after a graphics sequence: foreground, background, and the rest.
fn sgr(mut a: u32, p: &str) -> u32 {
    let v: Vec<u32> = p.split(';').map(|x| x.parse().unwrap_or(0)).collect();
    let mut i = 0;
    while i < v.len() {
        let (fg, bg) = (0xffu32 << 8, 0xffu32 << 16);
        match v[i] {
            0 => a = 0,
            x @ 1..=9 => a |= 1 << (x % 8),
            22 => a &= !0b110,
            x @ 23..=29 => a &= !(1 << (x - 20) % 8),
            x @ 30..=37 => a = a & !fg | (x - 29) << 8,
            39 => a &= !fg,
            x @ 40..=47 => a = a & !bg | (x - 39) << 16,
            49 => a &= !bg,
            x @ 90..=97 => a = a & !fg | (x - 81) << 8,
            x @ 100..=107 => a = a & !bg | (x - 91) << 16,
            x @ (38 | 48) => {
                let sh = if x == 38 { 8 } else { 16 };
                let m = 0xffu32 << sh;
                if v.get(i + 1) == Some(&5) {
                    a = a & !m | (v.get(i + 2).unwrap_or(&0) % 255 + 1) << sh;
                    i += 2;
                } else if v.get(i + 1) == Some(&2) {
                    a = a & !m | 0xee << sh;
                    i += 4;
                }
            }
            _ => {}
        }
        i += 1;
    }
    a
}

/// Visible text of a string with escape sequences.
pub fn visible(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\x1b' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('[') => while let Some(x) = it.next() {
                if x.is_ascii_alphabetic() {
                    break;
                }
            },
            Some(']') => while let Some(x) = it.next() {
                if x == '\x1b' {
                    it.next();
                    break;
                }
                if x == '\x07' {
                    break;
                }
            },
            Some('(' | ')' | '*' | '+') => {
                it.next();
            }
            _ => {}
        }
    }
    out
}
pub fn width(s: &str) -> usize {
    s.chars().map(|c| c.width().unwrap_or(0)).sum()
}
pub fn zero(c: char) -> bool {
    c.width() == Some(0)
}
