//! The process's own standard streams, when a simulated process touches them.
//! With `Sim::stdio` unset they are "not a terminal" and every touch is recorded.

use crate::sim::*;
use libc::*;

unsafe fn fail(e: c_int) -> c_int {
    *__errno_location() = e;
    -1
}

pub unsafe fn stdin_read(buf: *mut u8, n: usize) -> ssize_t {
    me().touched_stdio += 1;
    match &mut sim().stdio {
        None => 0,
        Some(io) => {
            if n == 0 {
                return 0;
            }
            if io.read_fault > 0 && chance(io.read_fault, 1000) {
                count("fault.tty_eintr");
                return fail(EINTR) as ssize_t;
            }
            if io.watch {
                // whoever waits for input has shown everything there is to show
                let t = io.tokens.iter().take_while(|t| t.end <= io.pos).count();
                if let (Some(m), Some(a)) = (io.marks.get(t), &io.attr) {
                    if *m != io.output.len() {
                        let m = *m;
                        violate("C20", "unflushed", format!("waiting for key {}: {} bytes were sent to the terminal, {} were due", t, io.output.len(), m));
                    }
                    if !crate::tty::is_raw(a) {
                        violate("C20", "not_raw", format!("the terminal is not in raw mode while key {} is waited for", t));
                    }
                }
            }
            let left = io.input.len() - io.pos;
            if left == 0 {
                if let Some(e) = io.fail_read {
                    count("fault.tty_read_error");
                    return fail(e) as ssize_t;
                }
            }
            let mut k = n.min(left);
            if io.chunk && k > 1 {
                k = if chance(1, 3) { k } else { 1 + choose((k as u32 - 1).min(4)) as usize };
                count("fault.tty_input_in_pieces");
            }
            // an Esc key comes by itself, escape sequences whole
            let mut from = io.pos;
            for t in &io.tokens {
                if t.end > io.pos {
                    if t.alone && from == io.pos {
                        k = k.min(t.end - io.pos);
                    } else if t.alone {
                        k = k.min(from - io.pos);
                    } else if t.whole && from < io.pos + k && io.pos + k < t.end {
                        k = t.end - io.pos;
                    }
                    if t.end >= io.pos + k {
                        break;
                    }
                }
                from = t.end.max(io.pos);
            }
            let k = k.min(n).min(left);
            std::ptr::copy_nonoverlapping(io.input[io.pos..].as_ptr(), buf, k);
            io.pos += k;
            k as ssize_t
        }
    }
}

pub unsafe fn stdout_write(_fd: c_int, buf: *const u8, n: usize) -> ssize_t {
    me().touched_stdio += 1;
    match &mut sim().stdio {
        None => n as ssize_t,
        Some(io) => {
            let mut k = n;
            io.writes += 1;
            if io.fail_write_at == Some(io.writes - 1) {
                count("fault.tty_write_error");
                io.write_failed = true;
                return fail(EIO) as ssize_t;
            }
            if io.write_fault > 0 && n > 0 {
                if chance(io.write_fault, 1000) {
                    count("fault.tty_eintr");
                    return fail(EINTR) as ssize_t;
                }
                if n > 1 && chance(io.write_fault, 1000) {
                    count("fault.tty_short_write");
                    k = 1 + choose(n as u32 - 1) as usize;
                }
            }
            io.output.extend_from_slice(std::slice::from_raw_parts(buf, k));
            k as ssize_t
        }
    }
}

pub unsafe fn sim_ioctl(_fd: c_int, req: c_ulong, arg: *mut c_void) -> c_int {
    me().touched_stdio += 1;
    match &mut sim().stdio {
        Some(io) if req == TIOCGWINSZ => {
            io.widths += 1;
            // (the width asked for at the very start has a default)
            if io.widths > 1 {
                if let Some(n) = &mut io.fail_width_at {
                    if *n == 0 {
                        io.fail_width_at = None;
                        io.write_failed = true;
                        count("fault.tty_width_error");
                        return fail(EIO);
                    }
                    *n -= 1;
                }
            }
            let w = arg as *mut winsize;
            (*w).ws_col = io.cols;
            (*w).ws_row = 24;
            0
        }
        _ => fail(ENOTTY),
    }
}

pub unsafe fn sim_tcgetattr(_fd: c_int, t: *mut termios) -> c_int {
    me().touched_stdio += 1;
    match &mut sim().stdio {
        Some(io) => {
            if io.attr_fault > 0 && chance(io.attr_fault, 1000) {
                count("fault.tcgetattr");
                return fail(EIO);
            }
            match &io.attr {
                Some(a) => {
                    *t = *a;
                    0
                }
                None => fail(ENOTTY),
            }
        }
        None => fail(ENOTTY),
    }
}

pub unsafe fn sim_tcsetattr(_fd: c_int, _act: c_int, t: *const termios) -> c_int {
    me().touched_stdio += 1;
    match &mut sim().stdio {
        Some(io) => {
            if io.attr_fault > 0 && io.set_calls == 0 && chance(io.attr_fault, 1000) {
                count("fault.tcsetattr");
                return fail(EIO);
            }
            io.set_calls += 1;
            io.attr = Some(*t);
            io.raw = (*t).c_lflag & ICANON == 0;
            0
        }
        None => fail(ENOTTY),
    }
}
