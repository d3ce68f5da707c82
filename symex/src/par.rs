//! Worker processes.

extern "C" {
    fn pipe(fds: *mut i32) -> i32;
    #[link_name = "fork"]
    fn c_fork() -> i32;
    fn read(fd: i32, p: *mut u8, n: usize) -> isize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    #[link_name = "close"]
    fn c_close(fd: i32) -> i32;
    fn pipe2(fds: *mut i32, flags: i32) -> i32;
}

/// A pipe that holds the numbers below `n`; returns the end to read from.
pub fn queue(n: usize) -> Result<i32, String> {
    let mut fds = [0i32; 2];
    let bytes: Vec<u8> = (0..n as u16).flat_map(|i| i.to_le_bytes()).collect();
    unsafe {
        // Up to 8000 bytes fit into a pipe.
        if pipe(fds.as_mut_ptr()) != 0 || write(fds[1], bytes.as_ptr(), bytes.len()) != bytes.len() as isize {
            return Err("pipe".into());
        }
        c_close(fds[1]);
    }
    Ok(fds[0])
}

pub fn read_exact(fd: i32, b: &mut [u8; 2]) -> bool {
    unsafe { read(fd, b.as_mut_ptr(), 2) == 2 }
}

pub fn fork() -> Result<i32, String> {
    match unsafe { c_fork() } {
        -1 => Err("fork".into()),
        p => Ok(p),
    }
}

pub fn close(fd: i32) {
    unsafe { c_close(fd) };
}

/// (read end, write end)
pub fn pipe_pair(nonblock: bool) -> Result<(i32, i32), String> {
    let mut fds = [0i32; 2];
    unsafe {
        if pipe2(fds.as_mut_ptr(), if nonblock { 0o4000 } else { 0 }) != 0 {
            return Err("pipe".into());
        }
    }
    Ok((fds[0], fds[1]))
}

pub fn put(fd: i32, b: u8) -> bool {
    unsafe { write(fd, &b, 1) == 1 }
}

pub fn get(fd: i32) -> Option<u8> {
    let mut b = 0;
    if unsafe { read(fd, &mut b, 1) } == 1 {
        Some(b)
    } else {
        None
    }
}
