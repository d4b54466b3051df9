//! Plain formulations of standard library functions whose real bodies are
//! about allocation; the dumper substitutes them.
use std::collections::VecDeque;

pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it {
        v.push(x);
    }
    v
}
pub fn vecdeque_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> VecDeque<T> {
    let mut v = VecDeque::new();
    for x in it {
        v.push_back(x);
    }
    v
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(x);
    }
}
pub fn vecdeque_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, it: I) {
    for x in it {
        v.push_back(x);
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    for x in it {
        v.push(*x);
    }
}
pub fn string_from_chars<I: IntoIterator<Item = char>>(it: I) -> String {
    let mut s = String::new();
    for x in it {
        s.push(x);
    }
    s
}
pub fn string_extend_chars<I: IntoIterator<Item = char>>(s: &mut String, it: I) {
    for x in it {
        s.push(x);
    }
}
pub fn string_from_strs<'a, I: IntoIterator<Item = &'a str>>(it: I) -> String {
    let mut s = String::new();
    for x in it {
        s.push_str(x);
    }
    s
}
pub fn string_extend_strs<'a, I: IntoIterator<Item = &'a str>>(s: &mut String, it: I) {
    for x in it {
        s.push_str(x);
    }
}
pub fn string_from_strings<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::new();
    for x in it {
        s.push_str(&x);
    }
    s
}
pub fn string_extend_strings<I: IntoIterator<Item = String>>(s: &mut String, it: I) {
    for x in it {
        s.push_str(&x);
    }
}
