//! The user: which key is pressed next, how a session ends, and what the completer answers.

use crate::refed::Mode;
use crate::session::{KeyEv, Profile, S};
use crate::sim::*;
use std::io::ErrorKind;
use termion::event::Key;

const FAILS: &[ErrorKind] = &[ErrorKind::Other, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::Interrupted, ErrorKind::UnexpectedEof];

pub fn next(s: &mut S) -> KeyEv {
    if s.sess_keys >= s.cfg.max_keys {
        return end(s);
    }
    if s.cfg.profile == Profile::Any && chance(1, 60) {
        return end(s);
    }
    if let Some(k) = s.script.pop() {
        let k = plain(s, k);
        return KeyEv::Key(if s.cfg.max_keys >= 1000 { go_on(s, k) } else { k });
    }
    if s.cfg.own && chance(1, 2) {
        return KeyEv::Key(crate::api::key());
    }
    if chance(1, 12) {
        s.script = script(s);
    }
    let k = if s.cfg.profile == Profile::Any {
        any_key(s)
    } else if s.cfg.vi {
        vi_key(s)
    } else {
        emacs_key(s)
    };
    KeyEv::Key(if s.cfg.max_keys >= 1000 { go_on(s, k) } else { k })
}

/// A very long session: it does not end soon, and there is much to be undone at its end.
fn go_on(s: &mut S, k: Key) -> Key {
    if s.sess_keys + 12 == s.cfg.max_keys {
        count("probe.long_session");
        s.script = match (s.cfg.vi, choose(2)) {
            (true, _) => vec![*pick(&[Key::F(1), Key::Char('x')]), Key::Char('u'), Key::Char('5'), Key::Char('9'), Key::Char('u'), Key::Char('0'), Key::Char('8'), Key::Esc],
            (_, 0) => vec![Key::Alt('r')],
            _ => vec![*pick(&[Key::F(1), Key::Alt('r')]), Key::Ctrl('x'), Key::Ctrl('x')],
        };
    }
    if s.sess_keys + 12 >= s.cfg.max_keys {
        return k;
    }
    match k {
        Key::Char('\n') => Key::Char('b'),
        Key::Ctrl('c') | Key::Ctrl('d') => Key::Delete,
        Key::Ctrl('x') | Key::Alt('r') | Key::F(1) | Key::Char('u') if !chance(1, 25) => Key::Char(letter(s)),
        k => k,
    }
}

/// A sequence of keys as users press them, last one first.
fn script(s: &mut S) -> Vec<Key> {
    use Key::*;
    let l = letter(s);
    let enter = |v: &mut Vec<Key>| v.extend([Char('\\'), Char('\n')]);
    let mut v = vec![];
    match choose(if s.cfg.vi { 20 } else { 10 }) {
        // recall, go on below, recall again
        0 => {
            for _ in 0..range(1, 4) {
                v.push(Up);
            }
            v.push(End);
            enter(&mut v);
            v.push(*pick(&[Up, Down]));
            v.push(*pick(&[Up, Down, Left]));
        }
        // type, recall, edit, undo all of it
        1 => {
            v.extend([Char(l), Up, Backspace, Char(l), Up, Down, Down]);
        }
        // search, refine, turn round, take it
        2 => {
            let a = *pick(&[Ctrl('r'), Ctrl('s')]);
            v.extend([a, Char(l), *pick(&[Ctrl('r'), Ctrl('s')]), Backspace, a, *pick(&[Right, Char('\n'), Left, Ctrl('f')])]);
        }
        // a list, gone through and accepted
        3 => {
            v.push(Char('\t'));
            let n = if chance(1, 60) {
                s.cfg.max_keys += 330;
                range(20, 330)
            } else {
                range(1, 5)
            };
            for _ in 0..n {
                v.push(Char('\t'));
            }
            v.push(*pick(&[Char('\n'), Char(' '), Left, Backspace, Up]));
            v.push(Char('\t'));
        }
        // last arguments
        4 => {
            if chance(1, 3) {
                // ... with a search between them that finds the same one
                v.extend([Alt('.'), *pick(&[Ctrl('r'), Ctrl('s')]), *pick(&[Char('\n'), Right, Ctrl('f')]), Alt('.'), Alt('.')]);
            } else {
                v.extend([Char(l), Alt('.'), Alt('.'), *pick(&[Alt('.'), Up, Left]), Alt('.')]);
            }
        }
        // in the middle of a long line
        5 => {
            for _ in 0..range(3, 30) {
                v.push(Char(l));
            }
            v.extend([Home, Right, Char(' '), *pick(&[Ctrl('k'), Ctrl('u'), Ctrl('w'), Delete])]);
        }
        6 => {
            v.extend([Up, *pick(&[Char(l), Backspace, Home]), Down, Up]);
        }
        7 => {
            for _ in 0..range(1, 4) {
                v.push(Char(l));
                enter(&mut v);
            }
            v.extend([Home, *pick(&[Up, Left, Backspace])]);
        }
        // recall, throw it all away, and perhaps finish
        8 => {
            if chance(1, 3) {
                v.push(Char(l));
            }
            for _ in 0..range(1, 3) {
                v.push(Up);
            }
            v.push(End);
            if s.cfg.vi && chance(1, 2) {
                v.extend([Esc, Char('c'), Char('c')]);
            } else {
                v.extend([Ctrl('u'), Ctrl('u')]);
                for _ in 0..range(1, 12) {
                    v.push(Backspace);
                }
            }
            if chance(1, 2) && s.cfg.max_keys < 1000 {
                if chance(1, 3) {
                    v.push(Ctrl('d'));
                }
                s.cfg.max_keys = s.sess_keys + v.len();
            } else {
                v.extend([*pick(&[Up, Down, Char(l)]), *pick(&[Up, Down, Backspace])]);
            }
        }
        // search for something, let go, and look around
        9 => {
            v.extend([Ctrl('r'), Char(l), *pick(&[Left, Char('\n'), Esc, Ctrl('f'), Backspace]), *pick(&[Up, Down]), *pick(&[Up, Down]), Char(l), Up, Down]);
        }
        // an operator with counts, repeated
        10 | 11 => {
            v.push(Esc);
            if chance(1, 2) {
                v.push(Char(*pick(&['2', '3'])));
            }
            v.push(Char(*pick(&['d', 'c', 'd'])));
            if chance(1, 2) {
                v.push(Char(*pick(&['2', '3'])));
            }
            v.push(Char(*pick(&['w', 'b', 'e', 'W', 'B', 'E', 'h', 'l'])));
            v.extend([Char(l), Esc, *pick(&[Char('0'), Char('b'), Char('h')]), Char('.'), Char('u')]);
        }
        // to a character and again
        12 | 13 => {
            let c = in_line(s);
            v.extend([Esc, Char(*pick(&['0', '$', 'b'])), Char(*pick(&['d', 'c', '2', 'l'])), Char(*pick(&['f', 't', 'F', 'T'])), Char(c)]);
            v.extend([Char(*pick(&[';', ',', '.'])), Char(*pick(&[';', ',', '.'])), Esc]);
        }
        // an insertion with a count, repeated
        14 | 15 => {
            v.extend([Esc, Char(*pick(&['2', '3'])), Char(*pick(&['i', 'a', 'A', 'I', 's'])), Char(l), *pick(&[Char(l), Backspace, Left]), Char(l), Esc, Char('.'), Char('u'), Char('u')]);
        }
        16 => {
            v.extend([Esc, Char(*pick(&['~', 'x', 'r', 'D'])), Char(l), Char(*pick(&['2', 'h', '0'])), Char('.'), Char('.'), Char('u')]);
        }
        // a change or insertion, moved about in and gone on with, then repeated
        17 | 18 => {
            v.push(Esc);
            if chance(1, 2) {
                v.push(Char(*pick(&['2', '3'])));
            }
            match choose(3) {
                0 => v.extend([Char('c'), Char(*pick(&['w', 'b', '$', 'c', 'e', 'l', 'h']))]),
                1 => v.extend([Char('c'), Char(*pick(&['2', '3'])), Char(*pick(&['w', 'b', 'e', 'l', 'h']))]),
                _ => v.push(Char(*pick(&['i', 'a', 'A', 'I', 's', 'S', 'C', 'R']))),
            }
            v.extend([Char(l), Char(letter(s)), *pick(&[Left, Right, Home, End, Left, Up]), *pick(&[Backspace, Char(l), Delete, Backspace]), Char(l), Esc]);
            if chance(1, 2) {
                v.push(Char(*pick(&['0', '$', 'b', 'h'])));
            }
            if chance(1, 3) {
                v.push(Char(*pick(&['2', '3'])));
            }
            v.extend([Char('.'), Char(*pick(&['.', 'u', '.'])), Char('u')]);
        }
        // history while a command is half typed, or while inserting
        _ => {
            v.extend([Char(l), *pick(&[Up, Esc]), Char(*pick(&['d', 'c', '3', 'k'])), *pick(&[Up, Char('k'), Down]), Char(l), Esc, Char('.'), Char('j'), Char('u')]);
        }
    }
    v.reverse();
    v
}

/// End the session in one of the documented ways (Enter may take several tries).
fn end(s: &mut S) -> KeyEv {
    s.forced += 1;
    if s.forced > 4 {
        return KeyEv::Key(Key::Ctrl('c'));
    }
    let cut = if s.cfg.cut { 2 } else { 0 };
    match weighted(&[8, 3, 2, cut, cut]) {
        0 => KeyEv::Key(Key::Char('\n')),
        1 => KeyEv::Key(Key::Ctrl('c')),
        2 => KeyEv::Key(Key::Ctrl('d')),
        3 => KeyEv::End,
        _ => KeyEv::Fail(*pick(FAILS)),
    }
}

/// A character to type.
fn letter(s: &S) -> char {
    let wide = s.cfg.wide;
    match s.cfg.profile {
        Profile::Hist => *pick(&['l', 's', 'a', 'b', ' ', 'é', '\\']),
        Profile::Tab => match weighted(&[12, 4, 4, 2, 1, 1]) {
            0 => *pick(&['a', 'b', 'f']),
            1 => *pick(&['o', 'é', '/']),
            2 | 3 => ' ',
            4 => '\\',
            _ => if wide { '漢' } else { '~' },
        },
        _ => match weighted(&[20, 8, 6, 4, 3, 3, 2, if wide { 4 } else { 0 }, if wide { 2 } else { 0 }]) {
            0 => *pick(&['a', 'b', 'c', 'd', 'e']),
            1 => ' ',
            2 => *pick(&['.', '-', '/', '_', ',', '(']),
            3 => *pick(&['A', 'B', 'Z', 'É']),
            4 => *pick(&['é', 'ß', 'ñ', 'ﬀ', 'İ', 'µ', '\u{a0}', '²', '\u{2003}']),
            5 => *pick(&['0', '1', '9', '$']),
            6 => '\\',
            7 => *pick(&['漢', '字', 'ｗ', '😀', '\u{3000}']),
            _ => '\u{301}',
        },
    }
}

fn any_char() -> char {
    match choose(9) {
        0 | 1 => *pick(&['a', 'b', ' ', '\\', '.', 'A', '0', '5', 'd', 'c', 'w', 'e', 'i', 'f', 't', 'g', ';', 'u']),
        2 => *pick(&['é', '漢', '\u{301}', '\u{200d}', '😀', '\u{202e}', 'ß', 'İ', '\u{feff}']),
        3 => *pick(&['\n', '\r', '\0', '\x07', '\x08', '\x1b', '\x7f', '\u{9b}', '\u{a0}']),
        4 => char::from_u32(choose(0x11_0000)).unwrap_or('\u{fffd}'),
        _ => char::from(32 + choose(95) as u8),
    }
}

fn any_key(s: &mut S) -> Key {
    match choose(12) {
        0 => *pick(&[Key::Left, Key::Right, Key::Up, Key::Down, Key::Home, Key::End, Key::Backspace, Key::Delete]),
        1 => *pick(&[Key::Insert, Key::PageUp, Key::PageDown, Key::BackTab, Key::Null, Key::__IsNotComplete, Key::F(0), Key::F(1), Key::F(12), Key::F(255)]),
        2 => Key::Esc,
        3 => Key::Char('\t'),
        4 => Key::Ctrl(char::from(b'a' + choose(26) as u8)),
        5 => Key::Alt(any_char()),
        6 => *pick(&[Key::Ctrl('['), Key::Ctrl('4'), Key::Ctrl('7'), Key::Ctrl('é'), Key::Ctrl(' '), Key::Ctrl('r'), Key::Ctrl('s')]),
        7 => Key::Char(any_char()),
        8 => Key::Char(letter(s)),
        _ if s.cfg.vi => vi_any(s),
        _ => emacs_key(s),
    }
}

/// Vi keys when the mode is not tracked: counts stay short.
fn vi_any(s: &mut S) -> Key {
    let digits = s.keys.iter().rev().take_while(|k| matches!(k, KeyEv::Key(Key::Char('0'..='9')))).count();
    match choose(8) {
        0 => Key::Esc,
        1 if digits < 2 => Key::Char(*pick(&['1', '2', '3', '7', '9', '0'])),
        1 => Key::Char('x'),
        2 => Key::Char(letter(s)),
        _ => Key::Char(*pick(VI_NORMAL)),
    }
}

const EMACS_MOVES: &[Key] = &[
    Key::Left,
    Key::Right,
    Key::Ctrl('b'),
    Key::Ctrl('f'),
    Key::Home,
    Key::End,
    Key::Ctrl('a'),
    Key::Ctrl('e'),
    Key::Alt('f'),
    Key::Alt('b'),
];
const EMACS_CUTS: &[Key] = &[Key::Backspace, Key::Ctrl('h'), Key::Delete, Key::Ctrl('d'), Key::Ctrl('w'), Key::Alt('\x7f'), Key::Ctrl('u'), Key::Ctrl('k')];

fn emacs_key(s: &mut S) -> Key {
    let k = match s.cfg.profile {
        Profile::Hist => match weighted(&[8, 10, 6, 6, 2, 3, 3, 1]) {
            0 => Key::Char(letter(s)),
            1 => *pick(&[Key::Up, Key::Ctrl('p')]),
            2 => *pick(&[Key::Down, Key::Ctrl('n')]),
            3 => *pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
            4 => *pick(&[Key::Right, Key::Ctrl('f'), Key::Home, Key::Left]),
            5 => *pick(&[Key::Backspace, Key::Ctrl('u')]),
            6 => Key::Char('\n'),
            _ => *pick(&[Key::Alt('<'), Key::Alt('>')]),
        },
        Profile::Undo => match weighted(&[14, 6, 10, 5, 2, 3, 2, 1, 1, 1]) {
            0 => Key::Char(letter(s)),
            1 => *pick(EMACS_CUTS),
            2 => Key::Ctrl('x'),
            3 => Key::F(1),
            4 => Key::Alt('r'),
            5 => *pick(&[Key::Up, Key::Down]),
            6 => *pick(&[Key::Left, Key::Home, Key::Alt('b')]),
            7 => Key::Char('\t'),
            8 => Key::Alt('.'),
            _ => *pick(&[Key::Ctrl('r'), Key::Ctrl('f'), Key::Char('\n')]),
        },
        Profile::Tab => match weighted(&[10, 16, 5, 3, 2, 1, 2]) {
            0 => Key::Char(letter(s)),
            1 => Key::Char('\t'),
            2 => *pick(EMACS_MOVES),
            3 => *pick(&[Key::Backspace, Key::Delete, Key::Ctrl('w'), Key::Ctrl('u'), Key::Ctrl('k')]),
            4 => Key::Char('\n'),
            5 => *pick(&[Key::Up, Key::Down, Key::Ctrl('x'), Key::Ctrl('l'), Key::Ctrl('r')]),
            _ => Key::Char(' '),
        },
        _ => match weighted(&[40, 16, 12, 5, 3, 5, 4, 3, 3, 2, 1, 2]) {
            0 => Key::Char(letter(s)),
            1 => *pick(EMACS_MOVES),
            2 => *pick(EMACS_CUTS),
            3 => Key::Ctrl('x'),
            4 => Key::Alt('r'),
            5 => Key::Alt('.'),
            6 => *pick(&[Key::Up, Key::Down, Key::Ctrl('p'), Key::Ctrl('n')]),
            7 => *pick(&[Key::Ctrl('r'), Key::Ctrl('s'), Key::Alt('<'), Key::Alt('>')]),
            8 => Key::Char('\t'),
            9 => *pick(&[Key::Char('\n'), Key::Char('\\')]),
            10 => *pick(&[Key::Ctrl('l'), Key::F(1), Key::Insert, Key::Esc, Key::Alt('x'), Key::PageUp, Key::Ctrl('y')]),
            _ => Key::Ctrl('f'),
        },
    };
    plain(s, k)
}

/// Keep a session from ending too soon, and break lines only where wanted.
fn plain(s: &mut S, k: Key) -> Key {
    match k {
        Key::Char('\n') | Key::Ctrl('d') | Key::Ctrl('c') => {
            let text = s.obs.as_ref().map(|o| o.text.clone()).unwrap_or_else(|| s.cfg.init.clone());
            let at = s.obs.as_ref().map(|o| o.cursor).unwrap_or(usize::MAX);
            if k == Key::Ctrl('d') && text.is_empty() && !chance(1, 6) {
                return Key::Delete;
            }
            if k == Key::Char('\n') {
                let breaks = at > 0 && text.chars().nth(at.wrapping_sub(1)) == Some('\\');
                let busy = s.model.list.is_some() || s.model.search.is_some();
                if breaks && !s.cfg.breaks {
                    return Key::Left;
                }
                if !breaks && !(busy && chance(1, 2)) && !chance(1, 8) {
                    // type the continuation instead
                    return if s.cfg.breaks { Key::Char('\\') } else { Key::Char('b') };
                }
            }
            k
        }
        k => k,
    }
}

const VI_NORMAL: &[char] = &[
    'i', 'a', 'A', 'I', 's', 'C', 'r', 'd', 'c', 'D', 'x', '.', 'h', 'l', 'k', 'j', 't', 'T', 'f', 'F', ';', ',', 'w', 'W', 'e', 'E', 'b', 'B', 'g', '0', '^', '$', '~', 'u', ' ', '1', '2', '3', '4', '9', 'p', 'G', 'o',
];
const VI_OP: &[char] = &['h', 'l', 'w', 'W', 'b', 'B', 'e', 'E', 'g', ' ', '^', '$', '0', 't', 'f', 'T', 'F', ';', ',', 'c', 'd', '1', '2', '3', 'q', 'i', 'k'];

fn vi_key(s: &mut S) -> Key {
    let (mode, count) = match &s.vi_state {
        Some(v) => {
            let v = v.borrow();
            (v.mode(), v.pending_count())
        }
        None => (Mode::Normal, 0),
    };
    // Tab, searches and the like work in every mode
    let (tab, search) = match s.cfg.profile {
        Profile::Tab => (25, 2),
        Profile::Hist => (0, 12),
        Profile::Undo => (2, 1),
        _ => (3, 2),
    };
    let k = match weighted(&[90, tab, search, if s.cfg.profile == Profile::Undo { 8 } else { 1 }, 2]) {
        1 => Key::Char('\t'),
        2 => *pick(&[Key::Ctrl('r'), Key::Ctrl('s')]),
        3 => Key::F(1),
        4 => *pick(&[Key::Char('\n'), Key::Char('\n'), Key::Ctrl('f'), Key::Ctrl('l'), Key::Insert, Key::Alt('x'), Key::Ctrl('d')]),
        _ => match mode {
            Mode::Insert => vi_insert(s),
            Mode::Normal => vi_normal(s, count),
            Mode::Replace => *pick(&[Key::Char('x'), Key::Char('é'), Key::Esc, Key::Char('R'), Key::Left, Key::Char(' ')]),
            Mode::Op(_) => vi_op(s, count),
            Mode::Find(_) => match choose(6) {
                0 => *pick(&[Key::Esc, Key::Left, Key::Char('Q')]),
                _ => Key::Char(in_line(s)),
            },
            Mode::G => Key::Char(*pick(&['e', 'E', 'e', 'E', 'g', 'x'])),
        },
    };
    plain(s, k)
}

/// A character of the line, to be found.
fn in_line(s: &mut S) -> char {
    match &s.obs {
        Some(o) if !o.text.is_empty() => {
            let c: Vec<char> = o.text.chars().collect();
            let c = c[choose(c.len() as u32) as usize];
            // (a line break or tab as a key means something else)
            if c == '\n' || c == '\t' { 'a' } else { c }
        }
        _ => 'a',
    }
}

fn vi_insert(s: &mut S) -> Key {
    match s.cfg.profile {
        Profile::Hist => match weighted(&[8, 10, 8, 4, 3, 2]) {
            0 => Key::Char(letter(s)),
            1 => Key::Up,
            2 => Key::Down,
            3 => Key::Esc,
            4 => *pick(&[Key::Backspace, Key::Right]),
            _ => Key::Char('\n'),
        },
        _ => match weighted(&[24, 7, 4, 4, 2, 1]) {
            0 => Key::Char(letter(s)),
            1 => Key::Esc,
            2 => *pick(&[Key::Left, Key::Right, Key::Home, Key::End]),
            3 => *pick(&[Key::Backspace, Key::Delete, Key::Ctrl('h')]),
            4 => *pick(&[Key::Up, Key::Down]),
            _ => Key::Ctrl('['),
        },
    }
}

fn vi_normal(s: &mut S, count: u32) -> Key {
    if s.cfg.profile == Profile::Hist {
        return match weighted(&[6, 10, 8, 4, 2]) {
            0 => Key::Char(*pick(&['i', 'a', 'A', 'I'])),
            1 => *pick(&[Key::Char('k'), Key::Up]),
            2 => *pick(&[Key::Char('j'), Key::Down]),
            3 => *pick(&[Key::Right, Key::Char('D'), Key::Char('x')]),
            _ => Key::Char('\n'),
        };
    }
    if count >= 10 {
        // large counts only where they stop at the edge
        return match choose(14) {
            0 if count < 1_000_000_000 => Key::Char(*pick(&['0', '9', '1'])),
            1 => Key::Esc,
            2 => Key::Left,
            3 => Key::Right,
            _ => Key::Char(*pick(&['h', 'l', 'w', 'W', 'e', 'E', 'b', 'B', 'g', 't', 'F', 'x', '~', 'r', '$', 'k', 'j', 'u', 's', 'd'])),
        };
    }
    if s.cfg.profile == Profile::Undo {
        return match weighted(&[10, 12, 6, 3, 2, 2, 2]) {
            0 => Key::Char(*pick(&['i', 'a', 'A', 'I', 's', 'C', 'c', 'r'])),
            1 => Key::Char('u'),
            2 => Key::Char(*pick(&['x', 'D', 'd', '~', 'd', '.'])),
            3 => *pick(&[Key::Up, Key::Down]),
            4 => Key::Char(*pick(&['h', 'b', '0', 'w'])),
            5 => Key::Char(*pick(&['2', '3'])),
            _ => Key::Delete,
        };
    }
    match weighted(&[40, 2, 3, 8]) {
        0 => Key::Char(*pick(VI_NORMAL)),
        1 => *pick(&[Key::Esc, Key::Home, Key::End, Key::Delete, Key::Backspace]),
        2 => *pick(&[Key::Left, Key::Right, Key::Up, Key::Down]),
        _ => Key::Char(*pick(&['d', 'c', '.', 'x', 'w', 'b', 'e', 'f', ';'])),
    }
}

fn vi_op(s: &mut S, count: u32) -> Key {
    if s.cfg.profile == Profile::Undo || s.cfg.profile == Profile::Hist {
        return Key::Char(*pick(&['w', 'b', 'e', 'd', 'c', '$', '0', 'h', 'l', 'f', 'Q']));
    }
    match choose(20) {
        0 => Key::Esc,
        1 => *pick(&[Key::Left, Key::Right, Key::Backspace, Key::Home, Key::End, Key::Up]),
        2 if count > 0 => Key::Char(*pick(&['0', '9'])),
        _ => Key::Char(*pick(VI_OP)),
    }
}

/// What the completer answers.
pub fn candidates(s: &S, word: &str) -> Vec<String> {
    let any = s.cfg.profile == Profile::Any || s.cfg.profile == Profile::Tab;
    let w = word.to_string();
    let fresh = |n: usize| -> Vec<String> {
        (0..n).map(|_| (*pick(&["foo", "bar", "ba", "fo o", "f", "b/", "x\\ y", "a", "aa", "öl", "", "qux123456789"])).to_string()).collect()
    };
    let mut v: Vec<String> = match weighted(&[3, 4, 5, 4, 3, 2, if any { 2 } else { 0 }]) {
        0 => vec![],
        1 => vec![format!("{}{}", w, pick(&["", " ", "x", "oo", "b c"]))],
        // a common part beyond the word
        2 => {
            let mid = *pick(&["o", "ob", "é", "a/"]);
            vec![format!("{}{}1", w, mid), format!("{}{}2", w, mid), format!("{}{}", w, mid)]
        }
        // no common part
        3 => vec![format!("{}b", w), format!("{}a", w), format!("{}b", w), format!("{}ccccc", w)],
        4 => {
            let n = range(1, 5) as usize;
            fresh(n)
        }
        5 => {
            let n = range(2, 14) as usize;
            if chance(1, 60) {
                let n = range(30, 320);
                (0..n).map(|i| format!("{}{}{}", w, ["x", "y", "é"][i as usize % 3], i)).collect()
            } else {
                (0..n).map(|i| format!("{}{}", w, (b'a' + (i % 26) as u8) as char)).collect()
            }
        }
        _ => vec![(*pick(&["漢字", "a\nb", "\\", "\t", "e\u{301}", " "])).to_string(), format!("{}漢", w), (*pick(&["", "漢", "\u{1b}[2J", "z"])).to_string()],
    };
    if v.len() > 1 && chance(1, 3) {
        let i = choose(v.len() as u32) as usize;
        v.rotate_left(i);
    }
    // (what a screen shows of control characters is not defined, nor a combining character by itself)
    if s.cfg.screen {
        if s.cfg.wide && chance(1, 4) {
            for x in v.iter_mut() {
                x.push_str(pick(&["漢", "漢字", "é", "", "字字字字", "e\u{301}"]));
            }
        }
        for x in v.iter_mut() {
            *x = x.chars().filter(|c| crate::vt::width(&c.to_string()) == 1 || (s.cfg.wide && !c.is_control())).collect();
            *x = x.trim_start_matches(crate::vt::zero).to_string();
        }
    }
    v
}
