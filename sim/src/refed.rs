//! Reference model of the line editor: what each key means, written from the documentation and the
//! key bindings, on plain vectors and whole-line snapshots.

use std::cmp::{max, min};
use termion::event::Key;

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Open,
    Close,
    /// text before, text after
    Step(Vec<char>, Vec<char>),
}

/// A line with its past and its undone future.
#[derive(Clone, Debug, Default)]
pub struct Line {
    pub t: Vec<char>,
    past: Vec<Tok>,
    future: Vec<Tok>,
}

impl Line {
    pub fn of(t: &[char]) -> Line {
        Line { t: t.to_vec(), ..Line::default() }
    }
    fn edit(&mut self, new: Vec<char>) {
        let before = std::mem::replace(&mut self.t, new.clone());
        self.past.push(Tok::Step(before, new));
        self.future.clear();
    }
    fn insert(&mut self, at: usize, s: &[char]) {
        let mut n = self.t[..at].to_vec();
        n.extend_from_slice(s);
        n.extend_from_slice(&self.t[at..]);
        self.edit(n);
    }
    fn remove(&mut self, a: usize, b: usize) {
        let mut n = self.t[..a].to_vec();
        n.extend_from_slice(&self.t[b..]);
        self.edit(n);
    }
    pub fn open(&mut self) {
        self.past.push(Tok::Open);
    }
    pub fn close(&mut self) {
        let n: i64 = self
            .past
            .iter()
            .map(|t| match t {
                Tok::Open => 1,
                Tok::Close => -1,
                _ => 0,
            })
            .sum();
        if n > 0 {
            self.past.push(Tok::Close);
        }
    }
    fn undo(&mut self) -> bool {
        let did = !self.past.is_empty();
        let (mut nest, mut steps) = (0, 0);
        while let Some(t) = self.past.pop() {
            match &t {
                Tok::Close => {
                    nest += 1;
                    steps = 0;
                }
                Tok::Open => nest -= 1,
                Tok::Step(before, _) => {
                    self.t = before.clone();
                    steps += 1;
                }
            }
            self.future.push(t);
            if nest == 0 && steps > 0 {
                break;
            }
        }
        did
    }
    fn redo(&mut self) -> bool {
        let did = !self.future.is_empty();
        let (mut nest, mut steps) = (0, 0);
        while let Some(t) = self.future.pop() {
            match &t {
                Tok::Open => {
                    nest += 1;
                    steps = 0;
                }
                Tok::Close => nest -= 1,
                Tok::Step(_, after) => {
                    self.t = after.clone();
                    steps += 1;
                }
            }
            self.past.push(t);
            if nest == 0 && steps > 0 {
                break;
            }
        }
        did
    }
    fn revert(&mut self) -> bool {
        if self.past.is_empty() {
            return false;
        }
        while self.undo() {}
        true
    }
}

/// The words of a line: maximal runs without an unescaped blank.
pub fn words(t: &[char]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut start = None;
    let mut esc = false;
    for (i, c) in t.iter().enumerate() {
        if *c == '\\' {
            esc = true;
            continue;
        }
        match start {
            Some(s) if *c == ' ' && !esc => {
                v.push((s, i));
                start = None;
            }
            None if *c != ' ' => start = Some(i),
            _ => {}
        }
        esc = false;
    }
    if let Some(s) = start {
        v.push((s, t.len()));
    }
    v
}

/// Another way to divide a line: maximal runs without commas and blanks.
pub fn comma_words(t: &[char]) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = Vec::new();
    for (i, c) in t.iter().enumerate() {
        if *c == ',' || *c == ' ' {
            continue;
        }
        match v.last_mut() {
            Some(l) if l.1 == i => l.1 = i + 1,
            _ => v.push((i, i + 1)),
        }
    }
    v
}

fn contains(t: &[char], p: &[char]) -> bool {
    !p.is_empty() && t.len() >= p.len() && (0..=t.len() - p.len()).any(|i| &t[i..i + p.len()] == p)
}
/// begins with `p` and is longer; never for an empty `p`
fn begins(t: &[char], p: &[char]) -> bool {
    !p.is_empty() && t.len() > p.len() && &t[..p.len()] == p
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Outcome {
    Continue,
    Done,
    Interrupted,
    Eof,
}

#[derive(Clone, Debug)]
pub struct List {
    pub items: Vec<String>,
    pub at: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Ed {
    pub new: Line,
    pub hl: Line,
    pub hv: bool,
    pub loc: Option<usize>,
    pub cursor: usize,
    pub no_eol: bool,
    /// Some(forward) while searching
    pub search: Option<bool>,
    pub subset: Vec<usize>,
    pub subset_loc: Option<usize>,
    pub changed: bool,
    pub sugg: Option<Vec<char>>,
    pub list: Option<List>,
    pub drawn_list: Option<List>,
    pub hist: Vec<Vec<char>>,
    pub share: bool,
    pub fresh: bool,
    /// the history the session sees after a refresh during the current key
    pub hist_after: Vec<Vec<char>>,
    pub reloaded: bool,
    /// the screen was cleared by the current key
    pub cleared: bool,
    pub vi_normal_prompt: bool,
    /// what the completer was asked and answered during the current key
    pub answers: Vec<(String, Vec<String>)>,
    /// the line was given up and looks finished
    pub gave_up: bool,
    pub complaint: Option<String>,
    /// the application divides lines its own way
    pub commas: bool,
    /// what the methods called by the application's key map returned
    pub returned: Vec<String>,
    /// the prompt, if the application has changed it
    pub prompt: Option<String>,
    /// how the prompt shows vi's normal and insert mode
    pub status: Option<(String, String)>,
}

impl Ed {
    pub fn new(init: &str, hist: &[String], share: bool) -> Ed {
        let t: Vec<char> = init.chars().collect();
        let mut e = Ed {
            cursor: t.len(),
            new: Line::of(&t),
            hl: Line::default(),
            hv: false,
            loc: None,
            no_eol: false,
            search: None,
            subset: vec![],
            subset_loc: None,
            changed: false,
            sugg: None,
            list: None,
            drawn_list: None,
            hist: hist.iter().map(|s| s.chars().collect()).collect(),
            share,
            fresh: false,
            hist_after: vec![],
            reloaded: false,
            cleared: false,
            vi_normal_prompt: false,
            answers: vec![],
            gave_up: false,
            complaint: None,
            commas: false,
            returned: vec![],
            prompt: None,
            status: None,
        };
        e.display();
        e
    }
    pub fn cur(&self) -> &Vec<char> {
        match self.loc {
            Some(_) if self.hv => &self.hl.t,
            Some(i) => &self.hist[i],
            None => &self.new.t,
        }
    }
    pub fn line(&mut self) -> &mut Line {
        self.changed = true;
        if let Some(i) = self.loc {
            if !self.hv {
                self.hl = Line::of(&self.hist[i]);
                self.hv = true;
            }
            &mut self.hl
        } else {
            &mut self.new
        }
    }
    pub fn len(&self) -> usize {
        self.cur().len()
    }
    pub fn text(&self) -> String {
        self.cur().iter().collect()
    }
    /// position in history of the entry the search stands on
    pub fn found(&self) -> Option<usize> {
        self.subset_loc.and_then(|i| self.subset.get(i).copied())
    }

    pub fn display(&mut self) {
        if let Some(fw) = self.search {
            if self.changed {
                self.refresh_search(fw);
            }
        }
        self.sugg = if self.hv {
            None
        } else if self.search.is_some() {
            self.found().map(|i| self.hist[i].clone())
        } else if let Some(i) = self.loc {
            Some(self.hist[i].clone())
        } else {
            self.hist.iter().rev().find(|h| begins(h, &self.new.t)).cloned()
        };
        self.clamp();
    }
    fn clamp(&mut self) {
        let n = self.len();
        self.cursor = min(self.cursor, n);
        if self.no_eol && n > 0 && self.cursor == n {
            self.cursor -= 1;
        }
        self.drawn_list = self.list.clone();
    }

    fn clear_search(&mut self) {
        self.search = None;
        self.subset_loc = None;
        self.subset.clear();
    }
    fn freshen(&mut self) {
        if self.share && !self.fresh {
            self.hist = self.hist_after.clone();
            self.reloaded = true;
            self.fresh = true;
            self.subset.clear();
            self.subset_loc = None;
            if let Some(l) = self.loc {
                if l >= self.hist.len() {
                    self.loc = None;
                }
            }
        }
    }
    fn refresh_search(&mut self, forward: bool) {
        let target = self.found();
        self.subset = (0..self.hist.len()).filter(|i| contains(&self.hist[*i], &self.new.t)).collect();
        self.subset_loc = if self.subset.is_empty() {
            None
        } else {
            let default = if forward { 0 } else { self.subset.len() - 1 };
            let near = target.and_then(|t| {
                self.subset.iter().position(|h| *h >= t).map(|i| {
                    if forward || self.subset[i] == t || i == 0 {
                        i
                    } else {
                        i - 1
                    }
                })
            });
            Some(near.unwrap_or(default))
        };
        self.search = Some(forward);
        self.loc = None;
        self.hv = false;
        self.changed = false;
    }
    pub fn search(&mut self, forward: bool) {
        if self.search.is_none() {
            self.freshen();
            self.refresh_search(forward);
        } else if let Some(p) = self.subset_loc {
            let n = self.subset.len();
            if n > 0 {
                self.subset_loc = Some(if forward { (p + 1) % n } else { (p + n - 1) % n });
            }
        }
        self.display();
    }
    pub fn accept(&mut self) {
        let s = self.sugg.clone();
        let searching = self.search.is_some();
        let l = self.line();
        if let Some(s) = s {
            if searching {
                l.remove(0, l.t.len());
                l.insert(0, &s);
            } else {
                let n = l.t.len();
                l.insert(n, s.get(n..).unwrap_or(&[]));
            }
        }
        self.clear_search();
        self.to_end();
    }
    pub fn newline(&mut self) -> bool {
        self.fresh = false;
        if self.search.is_some() {
            self.accept();
        }
        self.clear_search();
        if self.list.take().is_some() {
            return false;
        }
        if self.cursor > 0 && self.cur().get(self.cursor - 1) == Some(&'\\') {
            self.insert(&['\n']);
            false
        } else {
            self.finish();
            true
        }
    }
    fn finish(&mut self) {
        self.list = None;
        self.cursor = self.len();
        self.clamp();
    }
    pub fn give_up(&mut self) {
        if self.search.is_some() {
            self.accept();
        }
        self.clear_search();
        self.finish();
        self.gave_up = true;
    }

    pub fn to_end(&mut self) {
        self.cursor = self.len();
        self.display();
    }
    pub fn to_start(&mut self) {
        self.cursor = 0;
        self.display();
    }
    pub fn go(&mut self, p: usize) {
        self.cursor = min(p, self.len());
        self.display();
    }
    pub fn left(&mut self, n: usize) {
        self.cursor -= min(n, self.cursor);
        self.display();
    }
    pub fn right(&mut self, n: usize) {
        self.cursor += min(n, self.len() - self.cursor);
        self.display();
    }
    pub fn insert(&mut self, s: &[char]) {
        let c = self.cursor;
        self.line().insert(c, s);
        self.cursor += s.len();
        self.display();
    }
    pub fn backspace(&mut self) {
        if self.cursor > 0 {
            let c = self.cursor;
            self.line().remove(c - 1, c);
            self.cursor -= 1;
        }
        self.display();
    }
    pub fn delete(&mut self) {
        let c = self.cursor;
        let l = self.line();
        if c < l.t.len() {
            l.remove(c, c + 1);
        }
        self.display();
    }
    pub fn kill_before(&mut self) {
        let c = self.cursor;
        self.line().remove(0, c);
        self.cursor = 0;
        self.display();
    }
    pub fn kill_after(&mut self) {
        let c = self.cursor;
        let n = self.len();
        self.line().remove(c, n);
        self.display();
    }
    pub fn delete_until(&mut self, p: usize, inclusive: bool) {
        let n = self.len();
        let p = min(p, n);
        let (a, mut b) = (min(self.cursor, p), max(self.cursor, p));
        if inclusive {
            b = min(b + 1, n);
        }
        self.line().remove(a, b);
        self.cursor = a;
        self.display();
    }
    /// The word that ends at or spans the cursor; if `blanks`, else the last one before it.
    fn word_before(&self, blanks: bool) -> Option<(usize, usize)> {
        let w = self.words();
        w.iter()
            .find(|(s, e)| *s < self.cursor && self.cursor <= *e)
            .or_else(|| if blanks { w.iter().rev().find(|(_, e)| *e < self.cursor) } else { None })
            .copied()
    }
    pub fn kill_word(&mut self, blanks: bool) {
        if let Some((s, _)) = self.word_before(blanks) {
            let c = self.cursor;
            self.line().remove(s, c);
            self.cursor = s;
        }
        self.display();
    }
    pub fn undo(&mut self) -> bool {
        let did = self.line().undo();
        if did {
            self.to_end();
        } else {
            self.display();
        }
        did
    }
    pub fn redo(&mut self) -> bool {
        let did = self.line().redo();
        if did {
            self.to_end();
        } else {
            self.display();
        }
        did
    }
    pub fn revert(&mut self) -> bool {
        let did = self.line().revert();
        if did {
            self.to_end();
        } else {
            self.display();
        }
        did
    }
    /// Take the line away.
    pub fn take(&mut self) -> String {
        let t = self.text();
        match self.loc {
            Some(_) if self.hv => self.hl = Line::default(),
            Some(_) => {}
            None => self.new = Line::default(),
        }
        t
    }
    /// Change the line behind the editor's back (but not its view of what changed).
    pub fn direct(&mut self, at: usize, cut: usize, s: &[char]) {
        let l = self.line();
        let at = min(at, l.t.len());
        let end = min(at + cut, l.t.len());
        if end > at {
            l.remove(at, end);
        }
        if !s.is_empty() {
            l.insert(at, s);
        }
    }
    pub fn words(&self) -> Vec<(usize, usize)> {
        if self.commas {
            comma_words(self.cur())
        } else {
            words(self.cur())
        }
    }
    pub fn position(&self) -> String {
        let w = self.words();
        let c = self.cursor;
        for (i, (s, e)) in w.iter().enumerate() {
            if c == *s {
                return format!("OnWordLeftEdge({})", i);
            }
            if *s < c && c < *e {
                return format!("InWord({})", i);
            }
            if c == *e {
                return format!("OnWordRightEdge({})", i);
            }
        }
        let left = w.iter().rposition(|(_, e)| *e < c);
        let right = w.iter().position(|(s, _)| *s > c);
        format!("InSpace({:?}, {:?})", left, right)
    }
    pub fn clear(&mut self) {
        self.cleared = true;
        self.clear_search();
        self.display();
    }

    pub fn up(&mut self) {
        if self.search.is_some() {
            return self.search(false);
        }
        self.hv = false;
        self.freshen();
        if self.new.t.is_empty() {
            match self.loc {
                Some(0) => {}
                Some(i) => self.loc = Some(i - 1),
                None => self.loc = self.hist.len().checked_sub(1),
            }
        } else {
            match self.subset_loc {
                Some(0) => {}
                Some(i) => self.subset_loc = Some(i - 1),
                None => {
                    let t = &self.new.t;
                    let all = 0..self.hist.len();
                    let first: Vec<usize> = all.clone().filter(|i| begins(&self.hist[*i], t)).collect();
                    self.subset = all.filter(|i| contains(&self.hist[*i], t) && !begins(&self.hist[*i], t) && &self.hist[*i] != t).collect();
                    self.subset.extend(first);
                    self.subset_loc = self.subset.len().checked_sub(1);
                }
            }
            if let Some(i) = self.subset_loc {
                self.loc = Some(self.subset[i]);
            }
        }
        self.to_end();
    }
    pub fn down(&mut self) {
        if self.search.is_some() {
            return self.search(true);
        }
        self.hv = false;
        if self.new.t.is_empty() {
            match self.loc {
                Some(i) if i + 1 < self.hist.len() => self.loc = Some(i + 1),
                _ => {
                    self.loc = None;
                    self.fresh = false;
                }
            }
        } else {
            match self.subset_loc {
                Some(i) if i + 1 < self.subset.len() => {
                    self.subset_loc = Some(i + 1);
                    self.loc = Some(self.subset[i + 1]);
                }
                _ => {
                    self.loc = None;
                    self.subset_loc = None;
                    self.subset.clear();
                    self.fresh = false;
                }
            }
        }
        self.to_end();
    }
    pub fn first_entry(&mut self) {
        self.clear_search();
        self.hv = false;
        self.freshen();
        if self.hist.is_empty() {
            self.loc = None;
            self.display();
        } else {
            self.loc = Some(0);
            self.to_end();
        }
    }
    pub fn last_entry(&mut self) {
        self.clear_search();
        self.hv = false;
        if self.loc.take().is_some() {
            self.to_end();
        } else {
            self.display();
        }
    }

    pub fn tab(&mut self) {
        if let Some(mut l) = self.list.take() {
            if !self.answers.is_empty() {
                self.complaint = Some("the completer was asked although the list was open".into());
            }
            let i = l.at.map_or(0, |i| (i + 1) % l.items.len());
            // (an application may have changed the line or moved the cursor in the meantime)
            let inserted = l.at.and_then(|at| {
                let item: Vec<char> = l.items[at].chars().collect();
                let ends = [Some(self.cursor), if self.no_eol { Some(self.len()) } else { None }];
                ends.iter().flatten().copied().find(|e| *e >= item.len() && self.cur()[*e - item.len()..*e] == item[..]).map(|e| (e - item.len(), e))
            });
            if let Some((a, b)) = inserted {
                self.line().remove(a, b);
                self.cursor = a;
            } else {
                self.kill_word(false);
            }
            let s: Vec<char> = l.items[i].chars().collect();
            self.insert(&s);
            l.at = Some(i);
            self.list = Some(l);
            self.display();
            return;
        }
        let word: String = match self.word_before(false) {
            Some((s, e)) => self.cur()[s..e].iter().collect(),
            None => String::new(),
        };
        self.line();
        if self.answers.len() != 1 {
            self.complaint = Some(format!("the completer was asked {} times", self.answers.len()));
            return;
        }
        if self.answers[0].0 != word {
            self.complaint = Some(format!("the completer was asked for {:?}, the word before the cursor is {:?}", self.answers[0].0, word));
            return;
        }
        let mut c = self.answers[0].1.clone();
        c.sort();
        c.dedup();
        match c.len() {
            0 => {}
            1 => {
                self.kill_word(false);
                let s: Vec<char> = c[0].chars().collect();
                self.insert(&s);
            }
            _ => {
                let cs: Vec<Vec<char>> = c.iter().map(|s| s.chars().collect()).collect();
                let n = (0..cs[0].len()).take_while(|i| cs.iter().all(|x| x.get(*i) == Some(&cs[0][*i]))).count();
                let common: String = cs[0][..n].iter().collect();
                if common.len() > word.len() && common.starts_with(&word) {
                    self.kill_word(false);
                    self.insert(&cs[0][..n].to_vec());
                } else {
                    self.list = Some(List { items: c, at: None });
                    self.display();
                }
            }
        }
    }
    /// at the end of the line, as far as accepting a suggestion with Right is concerned
    pub fn at_end(&self) -> bool {
        if self.no_eol {
            self.cursor + 1 >= self.len()
        } else {
            self.cursor == self.len()
        }
    }
}

// ---------------------------------------------------------------------------------------- key maps

pub trait Keys {
    fn core(&mut self, e: &mut Ed, k: Key);
    fn init(&mut self, _e: &mut Ed) {}
}

pub fn step<K: Keys + ?Sized>(map: &mut K, e: &mut Ed, key: Key) -> Outcome {
    e.complaint = None;
    let empty = e.cur().is_empty();
    let key = if key == Key::Ctrl('h') { Key::Backspace } else { key };
    match key {
        Key::Ctrl('c') => {
            e.give_up();
            return Outcome::Interrupted;
        }
        Key::Ctrl('d') if empty => {
            e.give_up();
            return Outcome::Eof;
        }
        Key::Char('\t') | crate::api::TAB => e.tab(),
        Key::Char('\n') | crate::api::ENTER => {
            if e.newline() {
                return Outcome::Done;
            }
        }
        Key::Ctrl('f') if e.sugg.is_some() => {
            e.accept();
            e.list = None;
        }
        Key::Ctrl('r') => {
            e.search(false);
            e.list = None;
        }
        Key::Ctrl('s') => {
            e.search(true);
            e.list = None;
        }
        Key::Right if e.sugg.is_some() && e.at_end() => {
            e.accept();
            e.list = None;
        }
        _ => {
            map.core(e, key);
            e.list = None;
        }
    }
    Outcome::Continue
}

#[derive(Clone, Default)]
pub struct Emacs {
    /// history index and text of the last argument just fetched
    fetched: Option<(usize, Vec<char>)>,
}

fn last_arg(t: &[char]) -> Vec<char> {
    t.split(|c| *c == ' ').filter(|s| !s.is_empty()).last().unwrap_or(&[]).to_vec()
}

impl Emacs {
    fn last_arg(&mut self, e: &mut Ed) {
        if e.hist.is_empty() {
            return;
        }
        let newest = e.hist.len() - 1;
        let before = &e.cur()[..e.cursor];
        let again = self.fetched.take().filter(|(_, a)| before.ends_with(a));
        let index = match &again {
            Some((0, _)) => {
                self.fetched = again;
                return;
            }
            Some((i, a)) => {
                let n = a.len();
                if n > 0 {
                    e.delete_until(e.cursor - n, false);
                }
                min(i - 1, newest)
            }
            None => e.loc.unwrap_or(newest),
        };
        let a = last_arg(&e.hist[index]);
        if !a.is_empty() {
            e.insert(&a);
        }
        self.fetched = Some((index, a));
    }
}

impl Keys for Emacs {
    fn core(&mut self, e: &mut Ed, k: Key) {
        if k != Key::Alt('.') {
            self.fetched = None;
        }
        match k {
            Key::Char(c) => e.insert(&[c]),
            Key::Ctrl('l') => e.clear(),
            Key::Ctrl('a') | Key::Home => e.to_start(),
            Key::Ctrl('e') | Key::End => e.to_end(),
            Key::Ctrl('b') | Key::Left => e.left(1),
            Key::Ctrl('f') | Key::Right => e.right(1),
            Key::Ctrl('d') | Key::Delete => e.delete(),
            Key::Ctrl('p') | Key::Up => e.up(),
            Key::Ctrl('n') | Key::Down => e.down(),
            Key::Ctrl('u') => e.kill_before(),
            Key::Ctrl('k') => e.kill_after(),
            Key::Ctrl('w') | Key::Alt('\x7f') => e.kill_word(true),
            Key::Ctrl('x') => {
                e.undo();
            }
            Key::Alt('r') => {
                e.revert();
            }
            Key::Alt('<') => e.first_entry(),
            Key::Alt('>') => e.last_entry(),
            Key::Alt('f') => {
                if let Some((_, end)) = e.words().into_iter().find(|w| w.1 >= e.cursor && (w.1 > e.cursor || Some(w) == e.words().last())) {
                    e.go(end);
                }
            }
            Key::Alt('b') => {
                if let Some((start, _)) = e.words().into_iter().rev().find(|w| w.0 < e.cursor || (w.0 == e.cursor && Some(w) == e.words().first())) {
                    e.go(start);
                }
            }
            Key::Alt('.') => self.last_arg(e),
            Key::Backspace => e.backspace(),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Insert,
    Normal,
    Replace,
    /// d or c pending, with the position it was pressed at
    Op(usize),
    /// t f T F pending
    Find(char),
    G,
}

#[derive(Clone)]
pub struct Vi {
    stack: Vec<Mode>,
    cmd: Vec<Key>,
    last_cmd: Vec<Key>,
    ins: Option<Key>,
    last_ins: Option<Key>,
    count: u32,
    op_count: u32,
    last_count: u32,
    moved: bool,
    found: Option<(char, char)>,
}

impl Default for Vi {
    fn default() -> Vi {
        Vi {
            stack: vec![Mode::Insert],
            cmd: vec![],
            last_cmd: vec![],
            ins: None,
            last_ins: Some(Key::Char('i')),
            count: 0,
            op_count: 0,
            last_count: 0,
            moved: false,
            found: None,
        }
    }
}

fn class(c: char, big: bool) -> u8 {
    if c.is_whitespace() {
        0
    } else if big || c == '_' || c.is_alphanumeric() {
        1
    } else {
        2
    }
}

/// w W: start of the next word
fn next_word(t: &[char], mut p: usize, n: usize, big: bool) -> usize {
    for _ in 0..n {
        if p >= t.len() {
            break;
        }
        let k = class(t[p], big);
        while p < t.len() && class(t[p], big) == k {
            p += 1;
        }
        while p < t.len() && class(t[p], big) == 0 {
            p += 1;
        }
    }
    p
}
/// e E: end of the word (the end of the line when it is the last one)
fn word_end(t: &[char], mut p: usize, n: usize, big: bool) -> usize {
    for _ in 0..n {
        p += 1;
        while p < t.len() && class(t[p], big) == 0 {
            p += 1;
        }
        if p >= t.len() {
            return t.len();
        }
        let k = class(t[p], big);
        while p < t.len() && class(t[p], big) == k {
            p += 1;
        }
        if p >= t.len() {
            return t.len();
        }
        p -= 1;
    }
    p
}
/// b B: start of the word before
fn prev_word(t: &[char], mut p: usize, n: usize, big: bool) -> usize {
    for _ in 0..n {
        while p > 0 && class(t[p - 1], big) == 0 {
            p -= 1;
        }
        if p == 0 {
            break;
        }
        let k = class(t[p - 1], big);
        while p > 0 && class(t[p - 1], big) == k {
            p -= 1;
        }
    }
    p
}
/// ge gE: end of the word before
fn prev_end(t: &[char], mut p: usize, n: usize, big: bool) -> usize {
    for _ in 0..n {
        if p >= t.len() || p == 0 {
            break;
        }
        let k = class(t[p], big);
        while p > 0 && class(t[p], big) == k {
            p -= 1;
        }
        while p > 0 && class(t[p], big) == 0 {
            p -= 1;
        }
    }
    p
}

impl Vi {
    pub fn mode(&self) -> Mode {
        self.stack.last().copied().unwrap_or(Mode::Normal)
    }
    pub fn pending_count(&self) -> u32 {
        self.count
    }
    fn show_mode(&self, e: &mut Ed) {
        match self.mode() {
            Mode::Insert => e.vi_normal_prompt = false,
            Mode::Normal => e.vi_normal_prompt = true,
            _ => return,
        }
        e.display();
    }
    fn enter(&mut self, e: &mut Ed, m: Mode) {
        e.no_eol = m == Mode::Normal;
        self.moved = m != Mode::Insert;
        self.stack.push(m);
        self.show_mode(e);
        if m == Mode::Insert {
            e.line().open();
            self.last_count = 0;
            self.last_cmd.clear();
        }
    }
    fn settle(&mut self, e: &mut Ed) {
        e.no_eol = self.mode() == Mode::Normal;
        self.moved = self.mode() != Mode::Insert;
    }
    fn leave(&mut self, e: &mut Ed) {
        let m = self.stack.pop().unwrap_or(Mode::Normal);
        self.settle(e);
        if m == Mode::Insert {
            e.line().close();
        }
        self.show_mode(e);
    }
    fn abort(&mut self, e: &mut Ed) {
        if self.stack.contains(&Mode::Insert) {
            e.line().close();
        }
        self.stack.clear();
        e.no_eol = true;
        self.count = 0;
        self.show_mode(e);
    }
    fn motion_done(&mut self, e: &mut Ed, inclusive: bool) {
        let first = self.stack.pop().unwrap_or(Mode::Normal);
        let op = match self.mode() {
            Mode::Op(p) => {
                self.stack.pop();
                Some(p)
            }
            _ => match first {
                Mode::Op(p) => Some(p),
                _ => None,
            },
        };
        self.settle(e);
        if let Some(p) = op {
            e.delete_until(p, inclusive);
            std::mem::swap(&mut self.last_cmd, &mut self.cmd);
            self.last_ins = self.ins;
            self.last_count = self.count;
            self.count = 0;
            self.op_count = 0;
        }
        if first == Mode::Normal {
            self.count = 0;
        }
        self.show_mode(e);
    }
    fn n(&self) -> usize {
        max(self.count, 1) as usize
    }
    fn n_right(&self, e: &Ed) -> usize {
        min(self.n(), e.len() - e.cursor)
    }
    fn plain_edit(&mut self, keys: &[Key]) {
        self.last_ins = None;
        self.last_cmd = keys.to_vec();
    }
    fn common(&mut self, e: &mut Ed, k: Key) {
        match k {
            Key::Ctrl('l') => e.clear(),
            Key::Left => e.left(1),
            Key::Right => e.right(1),
            Key::Up => e.up(),
            Key::Down => e.down(),
            Key::Home => e.to_start(),
            Key::End => e.to_end(),
            Key::Backspace => e.backspace(),
            Key::Delete => e.delete(),
            _ => {}
        }
    }
    fn typed(&mut self, e: &mut Ed, k: Key) {
        if self.moved {
            e.line().close();
            e.line().open();
            self.last_cmd.clear();
            self.moved = false;
            self.last_ins = Some(Key::Char('i'));
            self.last_count = 0;
        }
        self.last_cmd.push(k);
    }
    fn insert_key(&mut self, e: &mut Ed, k: Key) {
        match k {
            Key::Esc | Key::Ctrl('[') => {
                if self.count > 0 {
                    self.last_count = self.count;
                    for _ in 1..self.count {
                        for k in std::mem::take(&mut self.last_cmd) {
                            self.core(e, k);
                        }
                    }
                    self.count = 0;
                }
                e.left(1);
                self.leave(e);
            }
            Key::Char(c) => {
                self.typed(e, k);
                e.insert(&[c]);
            }
            Key::Backspace | Key::Delete => {
                self.typed(e, k);
                self.common(e, k);
            }
            Key::Left | Key::Right | Key::Home | Key::End => {
                self.count = 0;
                self.moved = true;
                self.common(e, k);
            }
            Key::Up | Key::Down => {
                self.count = 0;
                self.moved = true;
                e.line().close();
                self.common(e, k);
                e.line().open();
            }
            _ => self.common(e, k),
        }
    }
    fn go(&mut self, e: &mut Ed, p: usize, inclusive: bool) {
        e.go(p);
        self.motion_done(e, inclusive);
    }
    fn normal_key(&mut self, e: &mut Ed, k: Key) {
        let t = e.cur().clone();
        let (c, n) = (e.cursor, self.n());
        match k {
            Key::Esc => self.count = 0,
            Key::Char(x @ ('i' | 'a' | 'A' | 'I' | 's' | 'C')) => {
                self.last_ins = Some(k);
                if x == 'C' {
                    self.count = 0;
                }
                self.enter(e, Mode::Insert);
                match x {
                    'a' => e.right(1),
                    'A' => e.to_end(),
                    'I' => e.to_start(),
                    's' => {
                        e.delete_until(e.cursor + self.n_right(e), false);
                        self.last_count = self.count;
                        self.count = 0;
                    }
                    'C' => e.kill_after(),
                    _ => {}
                }
            }
            Key::Char('r') => self.enter(e, Mode::Replace),
            Key::Char(x @ ('d' | 'c')) => {
                self.cmd.clear();
                if x == 'd' {
                    self.ins = None;
                    self.cmd.push(k);
                } else {
                    self.ins = Some(k);
                    self.enter(e, Mode::Insert);
                }
                self.enter(e, Mode::Op(e.cursor));
                self.op_count = self.count;
                self.count = 0;
            }
            Key::Char('D') => {
                self.plain_edit(&[k]);
                self.count = 0;
                self.last_count = 0;
                e.kill_after();
            }
            Key::Char('x') | Key::Delete => {
                self.plain_edit(&[k]);
                self.last_count = self.count;
                e.delete_until(c + self.n_right(e), false);
                self.count = 0;
            }
            Key::Char('.') => {
                if self.count == 0 {
                    self.count = max(self.last_count, 1);
                }
                self.repeat(e);
                self.count = 0;
            }
            Key::Char('h') | Key::Left | Key::Backspace => {
                e.left(n);
                self.motion_done(e, false);
            }
            Key::Char('l') | Key::Right | Key::Char(' ') => {
                e.right(n);
                self.motion_done(e, false);
            }
            Key::Char('k') | Key::Up => {
                e.up();
                self.motion_done(e, false);
            }
            Key::Char('j') | Key::Down => {
                e.down();
                self.motion_done(e, false);
            }
            Key::Char(x @ ('t' | 'T' | 'f' | 'F')) => self.enter(e, Mode::Find(x)),
            Key::Char(x @ (';' | ',')) => self.find_key(e, k, x),
            Key::Char('w') => self.go(e, next_word(&t, c, n, false), false),
            Key::Char('W') => self.go(e, next_word(&t, c, n, true), false),
            Key::Char('e') => self.go(e, word_end(&t, c, n, false), true),
            Key::Char('E') => self.go(e, word_end(&t, c, n, true), true),
            Key::Char('b') => self.go(e, prev_word(&t, c, n, false), false),
            Key::Char('B') => self.go(e, prev_word(&t, c, n, true), false),
            Key::Char('g') => self.enter(e, Mode::G),
            Key::Char('0') if self.count == 0 => self.go(e, 0, false),
            Key::Char('^') | Key::Home => self.go(e, 0, false),
            Key::Char('$') | Key::End => self.go(e, t.len(), false),
            Key::Char(d @ '0'..='9') => {
                self.count = self.count.saturating_mul(10).saturating_add(d as u32 - '0' as u32);
            }
            Key::Char('~') => {
                self.plain_edit(&[k]);
                self.last_count = self.count;
                e.no_eol = false;
                let todo = self.n_right(e);
                e.line().open();
                for _ in 0..todo {
                    let ch = e.cur()[e.cursor];
                    let to: Vec<char> = if ch.is_lowercase() {
                        ch.to_uppercase().collect()
                    } else if ch.is_uppercase() {
                        ch.to_lowercase().collect()
                    } else {
                        e.right(1);
                        continue;
                    };
                    e.delete();
                    for x in to {
                        e.insert(&[x]);
                    }
                }
                e.line().close();
                self.count = 0;
                self.settle(e);
                self.show_mode(e);
            }
            Key::Char('u') => {
                self.count = 0;
                for _ in 0..n {
                    if !e.undo() {
                        break;
                    }
                }
            }
            _ => {
                self.count = 0;
                self.common(e, k)
            }
        }
    }
    fn repeat(&mut self, e: &mut Ed) {
        self.last_count = self.count;
        let keys = std::mem::take(&mut self.last_cmd);
        let inserts = self.last_ins;
        if let Some(k) = inserts {
            self.core(e, k);
        }
        for k in &keys {
            self.core(e, *k);
            if inserts.is_some() && self.mode() == Mode::Normal {
                break;
            }
        }
        if inserts.is_some() && self.mode() != Mode::Normal {
            self.core(e, Key::Esc);
        }
        self.last_cmd = keys;
    }
    fn replace_key(&mut self, e: &mut Ed, k: Key) {
        if let Key::Char(c) = k {
            let n = self.n();
            if self.n_right(e) == n {
                self.plain_edit(&[Key::Char('r'), k]);
                self.last_count = self.count;
                e.line().open();
                for _ in 0..n {
                    e.delete();
                    e.insert(&[c]);
                }
                e.line().close();
                e.left(1);
            }
            self.leave(e);
        } else {
            self.abort(e);
        }
        self.count = 0;
    }
    fn op_key(&mut self, e: &mut Ed, k: Key) {
        let motion = match k {
            Key::Left | Key::Right | Key::Backspace | Key::Home | Key::End => true,
            Key::Char('0') => self.count == 0,
            Key::Char(c) => "hlwWbBeEg ^$tfTF;,".contains(c),
            _ => false,
        };
        match k {
            _ if motion => {
                self.count = match (self.op_count, self.count) {
                    (0, n) | (n, 0) => n,
                    (a, b) => a.saturating_mul(b),
                };
                self.cmd.push(k);
                self.normal_key(e, k);
            }
            Key::Char('0'..='9') => self.normal_key(e, k),
            Key::Char(x) if (x == 'c' && self.ins == Some(Key::Char('c'))) || (x == 'd' && self.ins.is_none()) => {
                self.cmd.push(k);
                std::mem::swap(&mut self.last_cmd, &mut self.cmd);
                self.last_ins = self.ins;
                self.last_count = 0;
                self.count = 0;
                self.op_count = 0;
                e.to_start();
                e.kill_after();
                self.leave(e);
            }
            _ => self.abort(e),
        }
    }
    /// `how` is one of t T f F, or ; , to repeat
    fn find_key(&mut self, e: &mut Ed, k: Key, how: char) {
        let n = self.n();
        self.count = 0;
        let (c, how) = match (how, self.found, k) {
            (';', Some(f), _) => f,
            (',', Some((c, h)), _) => (c, if h.is_lowercase() { h.to_ascii_uppercase() } else { h.to_ascii_lowercase() }),
            (';' | ',', None, _) => return self.abort(e),
            (_, _, Key::Char(c)) => {
                self.found = Some((c, how));
                self.cmd.push(k);
                (c, how)
            }
            _ => return self.abort(e),
        };
        let t = e.cur();
        let p = e.cursor;
        let hits: Vec<usize> = if how.is_lowercase() {
            (p + 1..t.len()).filter(|i| t[*i] == c).collect()
        } else {
            (0..p).rev().filter(|i| t[*i] == c).collect()
        };
        match hits.get(n - 1) {
            None => self.abort(e),
            Some(i) => {
                let to = match how {
                    't' => i - 1,
                    'T' => i + 1,
                    _ => *i,
                };
                self.go(e, to, how.is_lowercase());
            }
        }
    }
    fn g_key(&mut self, e: &mut Ed, k: Key) {
        let n = self.n();
        self.cmd.push(k);
        let t = e.cur().clone();
        match k {
            Key::Char('e') => self.go(e, prev_end(&t, e.cursor, n, false), true),
            Key::Char('E') => self.go(e, prev_end(&t, e.cursor, n, true), true),
            _ => self.abort(e),
        }
        self.count = 0;
    }
}

impl Keys for Vi {
    fn init(&mut self, e: &mut Ed) {
        e.line().open();
        self.show_mode(e);
    }
    fn core(&mut self, e: &mut Ed, k: Key) {
        match self.mode() {
            Mode::Normal => self.normal_key(e, k),
            Mode::Insert => self.insert_key(e, k),
            Mode::Replace => self.replace_key(e, k),
            Mode::Op(_) => self.op_key(e, k),
            Mode::Find(h) => self.find_key(e, k, h),
            Mode::G => self.g_key(e, k),
        }
    }
}
