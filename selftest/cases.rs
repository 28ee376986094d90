//! Small functions whose translation is compared with what rustc makes of them (selftest/run.sh).
#![allow(unused, clippy::all)]
fn inp() -> Vec<usize> {
    vec![3, 1, 4, 1, 5, 9, 2, 6]
}
pub fn it_next_twice() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter();
    let a = *it.next().unwrap();
    let b = *it.next().unwrap();
    let rest: Vec<usize> = it.map(|x| x + 1).collect();
    let mut r = vec![a, b];
    r.extend(rest);
    r
}
pub fn it_next_map() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter().map(|x| x * 2);
    let a = it.next().unwrap();
    let b: usize = it.sum();
    vec![a, b]
}
pub fn it_by_ref() -> Vec<usize> {
    let v = inp();
    let mut it = v.into_iter();
    let a: usize = it.by_ref().take(3).sum();
    let b: usize = it.sum();
    vec![a, b]
}
pub fn it_while_next() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter();
    let mut acc = vec![];
    while let Some(x) = it.next() {
        acc.push(*x + acc.len());
    }
    acc
}
pub fn it_while_next_twice() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter();
    let mut acc = vec![];
    while let Some(x) = it.next() {
        if let Some(y) = it.next() {
            acc.push(x * y);
        }
    }
    acc
}
pub fn it_for_ref() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter();
    let mut acc = vec![];
    for x in &mut it {
        acc.push(*x);
        if *x == 5 {
            break;
        }
    }
    acc.push(100);
    for x in it {
        acc.push(*x);
    }
    acc
}
pub fn it_all_stateful() -> Vec<usize> {
    let v = inp();
    let mut it = v.iter();
    let a = it.all(|x| *x < 5);
    let rest: Vec<usize> = it.cloned().collect();
    let mut r = vec![a as usize];
    r.extend(rest);
    r
}
pub fn range_next() -> Vec<usize> {
    let mut r = 2..6;
    let a = r.next().unwrap();
    let mut v: Vec<usize> = r.collect();
    v.push(a);
    v
}
pub fn while_count() -> Vec<usize> {
    let v = inp();
    let mut i = 2;
    let mut acc = vec![];
    while i < v.len() {
        acc.push(v[i] + i);
        i += 1;
    }
    acc.push(i);
    acc
}
pub fn while_count_above() -> Vec<usize> {
    let mut i = 20;
    let mut n = 0;
    while i < inp().len() {
        n += 1;
        i += 1;
    }
    vec![i, n]
}
pub fn while_growing() -> Vec<usize> {
    let mut v = vec![1, 2];
    let mut i = 0;
    while i < v.len() {
        if v.len() < 7 {
            v.push(i);
        }
        i += 1;
    }
    v
}
pub fn while_skip() -> Vec<usize> {
    let v = inp();
    let mut i = 0;
    let mut acc = vec![];
    while i < v.len() {
        if v[i] == 4 {
            i += 1;
        }
        acc.push(v[i]);
        i += 1;
    }
    acc
}
pub fn while_down() -> Vec<usize> {
    let v = inp();
    let mut i = v.len();
    let mut acc = vec![];
    while i > 0 {
        i -= 1;
        acc.push(v[i] * i);
    }
    acc.push(i);
    acc
}
pub fn while_down_last() -> Vec<usize> {
    let mut i = 5;
    let mut acc = vec![];
    while i != 0 {
        acc.push(i);
        i -= 1;
    }
    acc.push(i);
    acc
}
pub fn while_break() -> Vec<usize> {
    let v = inp();
    let mut i = 0;
    let mut acc = vec![];
    while i < v.len() {
        if v[i] == 5 {
            break;
        }
        acc.push(v[i]);
        i += 1;
    }
    acc
}
pub fn while_break_i() -> Vec<usize> {
    let v = inp();
    let mut i = 0;
    while i < v.len() {
        if v[i] == 5 {
            break;
        }
        i += 1;
    }
    vec![i]
}
pub fn while_ret() -> Vec<usize> {
    let v = inp();
    let mut i = 0;
    while i < v.len() {
        if v[i] == 9 {
            return vec![i, v[i]];
        }
        i += 1;
    }
    vec![]
}
pub fn while_len() -> Vec<usize> {
    let mut v = vec![7];
    while v.len() < 5 {
        let l = v.len();
        v.push(l * 10);
    }
    v
}
pub fn while_len_two() -> Vec<usize> {
    let mut v = vec![7];
    while v.len() < 6 {
        v.push(1);
        v.push(2);
    }
    v
}
pub fn loop_break() -> Vec<usize> {
    let v = inp();
    let mut i = 0;
    let mut acc = vec![];
    loop {
        if i >= v.len() {
            break;
        }
        acc.push(v[i] + 1);
        i += 1;
    }
    acc
}
pub fn for_break_continue() -> Vec<usize> {
    let mut acc = vec![];
    for (i, x) in inp().into_iter().enumerate() {
        if x == 1 {
            continue;
        }
        if x == 2 {
            break;
        }
        acc.push(x * 100 + i);
    }
    acc
}
pub fn for_nested_ret() -> Vec<usize> {
    let m = vec![inp(), vec![8, 8], inp()];
    let mut n = 0;
    for row in m.iter() {
        for x in row {
            n += 1;
            if *x == 8 {
                return vec![n];
            }
        }
    }
    vec![0]
}
pub fn for_nested_break() -> Vec<usize> {
    let m = vec![inp(), vec![8, 8], inp()];
    let mut acc = vec![];
    for row in m.iter() {
        for x in row {
            if *x == 5 {
                break;
            }
            acc.push(*x);
        }
        acc.push(99);
    }
    acc
}
pub fn iter_mut_add() -> Vec<usize> {
    let mut v = inp();
    let mut k = 0;
    for x in v.iter_mut() {
        *x += k;
        k += 1;
    }
    v.push(k);
    v
}
pub fn iter_mut_enum() -> Vec<usize> {
    let mut v = inp();
    for (i, x) in v.iter_mut().enumerate() {
        *x = *x * 10 + i;
    }
    v
}
pub fn iter_mut_zip() -> Vec<usize> {
    let mut v = inp();
    let w = vec![10, 20, 30];
    for (x, y) in v.iter_mut().zip(w.iter()) {
        *x += *y;
    }
    for (y, x) in w.iter().zip(v.iter_mut()) {
        *x += *y;
    }
    v
}
pub fn iter_mut_zip2() -> Vec<usize> {
    let mut v = inp();
    let w = vec![10, 20, 30];
    for (y, x) in w.iter().zip(v.iter_mut()) {
        *x += *y;
    }
    v.iter_mut().for_each(|x| *x += 1);
    v.iter_mut().enumerate().for_each(|(i, x)| *x += i * 1000);
    v
}
pub fn iter_mut_rows() -> Vec<usize> {
    let mut m = vec![vec![1, 2], vec![3, 4]];
    for row in m.iter_mut() {
        for x in row.iter_mut() {
            *x += 1;
        }
        row.push(7);
    }
    m.concat()
}
pub fn closure_capture() -> Vec<usize> {
    let mut n = 5;
    let add = move |x: usize| x + n;
    n += 1;
    vec![add(1), n]
}
pub fn closure_mut() -> Vec<usize> {
    let mut n = 0;
    let mut next = || {
        n += 3;
        n
    };
    let a = next();
    let b = next();
    vec![a, b, n]
}
pub fn closure_move_mut() -> Vec<usize> {
    let mut n = 0;
    let mut next = move || {
        n += 3;
        n
    };
    let a = next();
    let b = next();
    vec![a, b, n]
}
pub fn closure_arg() -> Vec<usize> {
    fn twice(f: impl Fn(usize) -> usize, x: usize) -> usize {
        f(f(x))
    }
    let k = 4;
    vec![twice(|x| x * k + 1, 2)]
}
pub fn map_order() -> Vec<usize> {
    let mut n = 0;
    let v: Vec<usize> = inp()
        .into_iter()
        .map(|x| {
            n += x;
            n
        })
        .collect();
    let mut w = v;
    w.push(n);
    w
}
pub fn map_rev_effect() -> Vec<usize> {
    let mut n = 0;
    let v: Vec<usize> = inp()
        .into_iter()
        .map(|x| {
            n += x;
            n
        })
        .rev()
        .collect();
    v
}
pub fn map_take_effect() -> Vec<usize> {
    let mut n = 0;
    let v: Vec<usize> = inp()
        .into_iter()
        .map(|x| {
            n += x;
            n
        })
        .take(2)
        .collect();
    vec![n, v.len()]
}
pub fn map_take_panic() -> Vec<usize> {
    let v = inp();
    (0..100).map(|i| v[i]).take(3).collect()
}
pub fn for_break_effect() -> Vec<usize> {
    let mut n = 0;
    let mut last = 0;
    for y in inp().into_iter().map(|x| {
        n += x;
        x
    }) {
        last = y;
        if y == 4 {
            break;
        }
    }
    vec![n, last]
}
pub fn fold_order() -> Vec<usize> {
    vec![inp().iter().fold(0, |a, b| a * 10 + b), inp().iter().rev().fold(0, |a, b| a * 10 + b)]
}
pub fn slices() -> Vec<usize> {
    let v = inp();
    let (a, b) = v.split_at(3);
    let c = &v[1..4];
    let d = &v[5..];
    let e = &v[..2];
    let f = &v[2..=3];
    [a, b, c, d, e, f].concat()
}
pub fn chunky() -> Vec<usize> {
    let v = inp();
    v.chunks(3).map(|c| c.iter().sum::<usize>()).collect()
}
pub fn windows_() -> Vec<usize> {
    inp().windows(2).map(|w| w[0] * 10 + w[1]).collect()
}
pub fn step_by_() -> Vec<usize> {
    (0..10).step_by(3).collect()
}
pub fn skip_take() -> Vec<usize> {
    inp().iter().skip(2).take(3).cloned().chain(inp().into_iter().rev().take(1)).collect()
}
pub fn swap_() -> Vec<usize> {
    let mut v = inp();
    v.swap(0, 3);
    let mut a = vec![1];
    std::mem::swap(&mut a, &mut v);
    a.append(&mut v);
    a.insert(1, 77);
    let r = a.remove(2);
    a.push(r);
    a.truncate(8);
    let p = a.pop().unwrap();
    a.push(p + v.len());
    a
}
pub fn drain_() -> Vec<usize> {
    let mut v = inp();
    let w: Vec<usize> = v.drain(..).collect();
    let mut x = w.clone();
    let y: Vec<usize> = x.drain(1..3).collect();
    let mut r = v;
    r.extend(w);
    r.push(1000);
    r.extend(x);
    r.push(1000);
    r.extend(y);
    r
}
pub fn reverse_sort() -> Vec<usize> {
    let mut v = inp();
    v.reverse();
    v.dedup();
    v.retain(|x| *x != 9);
    v
}
pub fn resize_() -> Vec<usize> {
    let mut v = inp();
    v.resize(10, 5);
    v.resize(9, 6);
    v.extend_from_slice(&[1, 2]);
    v.split_off(4)
}
pub fn opt_chain() -> Vec<usize> {
    let v = inp();
    let a = v.first().copied().unwrap_or(0);
    let b = v.get(20).copied().unwrap_or(17);
    let c = v.last().map(|x| x + 1).unwrap();
    let d = if let Some(x) = v.get(1) { *x } else { 50 };
    let Some(e) = v.iter().next() else { panic!() };
    vec![a, b, c, d, *e]
}
pub fn match_slice() -> Vec<usize> {
    let f = |v: &[usize]| match v {
        [] => 0,
        [a] => 10 + *a,
        [a, .., b] if a == b => 500,
        [a, b] => 20 + a * b,
        [a, rest @ ..] => 1000 + a + rest.len(),
    };
    vec![f(&[]), f(&[4]), f(&[4, 4]), f(&[3, 5]), f(&[1, 2, 1]), f(&[1, 2, 3])]
}
pub fn match_num() -> Vec<usize> {
    inp()
        .iter()
        .map(|x| match x {
            0..=1 => 0,
            2 | 3 => 1,
            n if n % 2 == 0 => 2,
            n @ 5 => *n * 100,
            _ => 3,
        })
        .collect()
}
pub fn tuple_assign() -> Vec<usize> {
    let (mut a, mut b) = (1, 2);
    for _ in 0..5 {
        (a, b) = (b, a + b);
    }
    let t = (a, (b, 3));
    let (x, (y, z)) = t;
    vec![x, y, z, t.1 .0]
}
pub fn shadow() -> Vec<usize> {
    let x = 1;
    let y = {
        let x = x + 10;
        x * 2
    };
    let x = x + y;
    vec![x, y]
}
pub fn early() -> Vec<usize> {
    fn f(n: usize) -> usize {
        if n > 3 {
            return 1;
        }
        let mut m = n;
        if n == 2 {
            m = 40;
        } else if n == 1 {
            m += 3;
        }
        m
    }
    (0..5).map(f).collect()
}
pub fn opt_try() -> Vec<usize> {
    fn f(v: &[usize], i: usize) -> Option<usize> {
        let a = v.get(i)?;
        let b = v.get(i + 3)?;
        Some(a + b)
    }
    let v = inp();
    (0..8).map(|i| f(&v, i).unwrap_or(99)).collect()
}
pub fn mut_arg() -> Vec<usize> {
    fn add(v: &mut Vec<usize>, n: &mut usize) {
        v.push(*n);
        *n += 1;
    }
    let mut n = 3;
    let mut v = inp();
    add(&mut v, &mut n);
    add(&mut v, &mut n);
    v.push(n);
    v
}
pub fn mut_ret() -> Vec<usize> {
    fn last(v: &mut Vec<usize>) -> &mut usize {
        let n = v.len();
        &mut v[n - 1]
    }
    let mut v = inp();
    *last(&mut v) += 5;
    v
}
pub fn ref_alias() -> Vec<usize> {
    let mut m = vec![vec![1], vec![2]];
    {
        let r = &mut m[1];
        r.push(5);
        let q = &mut r[0];
        *q = 9;
    }
    let (a, b) = m.split_at_mut(1);
    a[0].push(b[0][0]);
    m.concat()
}
pub fn take_replace() -> Vec<usize> {
    let mut v = inp();
    let w = std::mem::take(&mut v);
    let mut u = w.clone();
    let o = std::mem::replace(&mut u, vec![1]);
    let mut r = v;
    r.extend(u);
    r.push(o.len() + w.len());
    r
}
pub fn bools() -> Vec<usize> {
    let v = inp();
    let a = v.iter().any(|x| *x == 9) && !v.contains(&7);
    let b = v.is_empty() || v.len() >= 8 && v[0] != 3;
    let c = a ^ b;
    let d = a & !b | c;
    vec![a as usize, b as usize, c as usize, d as usize]
}
pub fn cmp_vec() -> Vec<usize> {
    let v = inp();
    let w = inp();
    vec![(v == w) as usize, (v[..3] == w[1..4]) as usize, (vec![vec![1usize]] != vec![vec![1, 2]]) as usize]
}
pub fn short_circuit() -> Vec<usize> {
    let v: Vec<usize> = vec![];
    let a = v.len() > 0 && v[0] == 1;
    let b = v.is_empty() || v[0] == 1;
    vec![a as usize, b as usize]
}
pub fn panic_index() -> Vec<usize> {
    let v = inp();
    vec![v[8]]
}
pub fn panic_assert() -> Vec<usize> {
    let v = inp();
    assert_eq!(v.len(), 7);
    v
}
pub fn panic_sub() -> Vec<usize> {
    let v = inp();
    vec![v[1] - v[0]]
}
pub fn all_empty() -> Vec<usize> {
    let v: Vec<usize> = vec![];
    vec![v.iter().all(|x| *x > 3) as usize, v.iter().any(|x| *x > 3) as usize, v.iter().sum::<usize>(), v.iter().product::<usize>()]
}
pub fn zip3() -> Vec<usize> {
    let v = inp();
    v.iter().zip(v.iter().skip(1)).zip(2..5).map(|((a, b), c)| a * 100 + b * 10 + c).collect()
}
pub fn flat() -> Vec<usize> {
    vec![vec![1, 2], vec![], vec![3]].into_iter().flatten().chain((1..3).flat_map(|i| vec![i; i])).collect()
}
pub fn filter_() -> Vec<usize> {
    inp().into_iter().filter(|x| x % 2 == 1).map(|x| x * x).collect()
}
pub fn fm() -> Vec<usize> {
    inp().into_iter().filter_map(|x| if x > 3 { Some(x * 2) } else { None }).collect()
}
pub fn minmax() -> Vec<usize> {
    let v = inp();
    vec![v.len().min(3), v.len().max(30), *v.iter().max().unwrap(), *v.iter().min().unwrap()]
}
pub fn position_() -> Vec<usize> {
    let v = inp();
    vec![v.iter().position(|x| *x == 9).unwrap(), *v.iter().find(|x| **x > 3).unwrap()]
}
pub fn scan_take_while() -> Vec<usize> {
    let v = inp();
    v.iter().take_while(|x| **x < 5).cloned().chain(v.iter().skip_while(|x| **x < 5).cloned()).collect()
}
pub fn arr() -> Vec<usize> {
    let mut a = [0usize; 4];
    for i in 0..4 {
        a[i] = i * i;
    }
    a[1..3].copy_from_slice(&[8, 9]);
    let b: [usize; 2] = [a[0], a[3]];
    let mut v = a.to_vec();
    v.extend(b);
    v
}
pub fn unzip_() -> Vec<usize> {
    let (a, b): (Vec<usize>, Vec<usize>) = inp().into_iter().map(|x| (x + 1, x * 2)).unzip();
    [a, b].concat()
}
pub fn part() -> Vec<usize> {
    let (a, b): (Vec<usize>, Vec<usize>) = inp().into_iter().partition(|x| *x > 3);
    [a, b].concat()
}
pub fn nested_push() -> Vec<usize> {
    let mut m: Vec<Vec<usize>> = Vec::new();
    for i in 0..3 {
        m.push(Vec::new());
        for j in 0..i {
            m[i].push(i * 10 + j);
        }
        m[0].push(i);
    }
    m.concat()
}
pub fn let_later() -> Vec<usize> {
    let a;
    let b;
    if inp().len() > 3 {
        a = 1;
        b = 2;
    } else {
        a = 3;
        b = 4;
    }
    vec![a, b]
}
pub fn block_label() -> Vec<usize> {
    let x = 'a: {
        if inp().len() > 3 {
            break 'a 7;
        }
        8
    };
    vec![x]
}
pub fn label_break() -> Vec<usize> {
    let mut n = 0;
    'outer: for i in 0..5usize {
        for j in 0..5usize {
            if i * j == 6 {
                break 'outer;
            }
            if j > i {
                continue 'outer;
            }
            n += 1;
        }
    }
    vec![n]
}
pub fn loop_value() -> Vec<usize> {
    let mut i = 0;
    let x = loop {
        i += 1;
        if i * i > 50 {
            break i;
        }
    };
    vec![x]
}
pub fn clone_indep() -> Vec<usize> {
    let v = inp();
    let mut w = v.clone();
    w[0] = 100;
    let u = w.to_owned();
    w.clear();
    [v, w, u].concat()
}
pub fn range_pat() -> Vec<usize> {
    (0..8usize)
        .map(|x| match x {
            0 | 5..=6 => 100,
            1..=2 => 200,
            y @ 3..5 => y,
            z => z * 7,
        })
        .collect()
}
pub fn inf_take() -> Vec<usize> {
    let mut n = 3;
    let v: Vec<usize> = std::iter::repeat_with(|| {
        n += 2;
        n
    })
    .take(4)
    .collect();
    let mut w: Vec<usize> = std::iter::repeat(7).take(2).collect();
    w.extend((5..).zip(v.iter()).map(|(i, x)| i * x));
    w.extend(v.iter().zip(2..).map(|(i, x)| i * x));
    w.push(n);
    w
}
pub fn inf_rev_take() -> Vec<usize> {
    (4..).map(|x| x * 2).take(3).collect()
}
pub fn chunks_ex() -> Vec<usize> {
    let v = [1, 2, 3, 4, 5, 6, 7];
    v.chunks_exact(3).map(|c| c.iter().sum::<usize>()).chain(v.chunks(3).map(|c| c.len())).collect()
}
pub fn split_fl() -> Vec<usize> {
    let v = inp();
    let (a, r) = v.split_first().unwrap();
    let (b, s) = r.split_last().unwrap();
    let mut o = vec![*a, *b, s.len()];
    let e: Vec<usize> = vec![];
    if e.split_first().is_none() && e.split_last().is_none() {
        o.push(99);
    }
    o
}
pub fn arr_conv() -> Vec<usize> {
    let v = vec![1, 2, 3];
    let a: [usize; 3] = v.clone().try_into().unwrap();
    let b: Result<[usize; 2], _> = v.try_into();
    let [x, y, z] = a.map(|t| t * 10);
    let f: [usize; 4] = std::array::from_fn(|i| i * i);
    vec![x, y, z, f[3], b.is_err() as usize]
}
pub fn arr_conv_bad() -> Vec<usize> {
    let v = vec![1, 2, 3];
    let a: [usize; 2] = v.try_into().unwrap();
    a.to_vec()
}
pub fn fill_copy() -> Vec<usize> {
    let mut v = vec![1, 2, 3];
    v.copy_from_slice(&[4, 5, 6]);
    let mut w = vec![1, 2];
    w.fill(8);
    v.extend(w);
    v
}
pub fn copy_bad() -> Vec<usize> {
    let mut v = vec![1, 2, 3];
    v.copy_from_slice(&[4, 5]);
    v
}
pub fn sat() -> Vec<usize> {
    let a: usize = inp().len();
    vec![a.saturating_sub(100), 100usize.saturating_sub(a), (2usize).checked_sub(3).is_none() as usize, (5usize).checked_sub(3).unwrap()]
}
fn gsum<T: Copy + std::ops::Add<Output = T> + Default>(v: &[T]) -> T {
    v.iter().fold(T::default(), |a, b| a + *b)
}
fn gmax<T: PartialOrd + Copy>(a: T, b: T) -> T {
    if a < b { b } else { a }
}
pub fn generic_sum() -> Vec<usize> {
    vec![gsum(&inp()), gsum(&[1usize, 2])]
}
pub fn generic_max() -> Vec<usize> {
    vec![gmax(3usize, 4)]
}
pub fn iter_eq() -> Vec<usize> {
    let v = inp();
    let w = inp();
    vec![v.iter().eq(w.iter()) as usize, v.iter().ne(w.iter()) as usize]
}
pub fn join2() -> Vec<usize> {
    let mut a = vec![1];
    let mut b = vec![2];
    let (x, y) = rayon_join(|| { a.push(5); a.len() }, || { b.push(7); b[0] });
    a.extend(b);
    a.push(x);
    a.push(y);
    a
}
fn rayon_join<A, B>(f: impl FnOnce() -> A, g: impl FnOnce() -> B) -> (A, B) {
    let y = g();
    let x = f();
    (x, y)
}
fn rev_n<T: Copy, const N: usize>(v: [T; N]) -> [T; N] {
    let mut w = v;
    for i in 0..N {
        w[i] = v[N - 1 - i];
    }
    w
}
pub fn const_generic() -> Vec<usize> {
    let a = rev_n([1usize, 2, 3]);
    let b = rev_n([5usize, 6]);
    vec![a[0], a[1], a[2], b[0], b[1]]
}
pub fn take_apart_first() -> Vec<usize> {
    let v = inp();
    let mut rest = &v[..];
    let mut out = vec![];
    while let Some((y, tail)) = rest.split_first() {
        out.push(*y);
        out.push(tail.len());
        out.push(rest.len());
        rest = tail;
    }
    out.push(rest.len());
    out
}
pub fn take_apart_last() -> Vec<usize> {
    let v = inp();
    let mut rest: &[usize] = &v;
    let mut out = vec![];
    while let Some((y, init)) = rest.split_last() {
        out.push(*y);
        out.push(init.iter().sum());
        rest = init;
    }
    out.push(rest.len());
    out
}
pub fn take_apart_wrong() -> Vec<usize> {
    let v = inp();
    let mut rest: &[usize] = &v;
    let mut out = vec![];
    while let Some((y, tail)) = rest.split_first() {
        out.push(*y);
        if *y > 3 { rest = &[]; } else { rest = tail; }
    }
    out
}
pub fn take_apart_break() -> Vec<usize> {
    let v = inp();
    let mut rest: &[usize] = &v;
    let mut out = vec![];
    while let Some((y, tail)) = rest.split_first() {
        if out.len() == 2 { break; }
        out.push(*y);
        rest = tail;
    }
    out.push(rest.len());
    out
}
pub fn pop_all() -> Vec<usize> {
    let mut v = inp();
    let mut out = vec![];
    while let Some(x) = v.pop() {
        out.push(x);
    }
    out.push(v.len());
    out
}
pub fn pop_break() -> Vec<usize> {
    let mut v = inp();
    let mut out = vec![];
    while let Some(x) = v.pop() {
        if out.len() == 1 { break; }
        out.push(x);
    }
    out.push(v.len());
    out
}
pub fn resize_with() -> Vec<usize> {
    let mut v = inp();
    let n = v.len();
    let mut k = 10;
    v.resize_with(n + 2, || { k += 1; k });
    v.push(k);
    let mut w = inp();
    w.resize_with(1, || 7);
    v.extend(w);
    v
}
pub fn reduce_seq() -> Vec<usize> {
    let v = inp();
    let e: Vec<usize> = vec![];
    vec![v.iter().copied().reduce(|a, b| 2 * a + b).unwrap_or(0), e.into_iter().reduce(|a, b| a * b).unwrap_or(9)]
}
pub fn rev_sum() -> Vec<usize> {
    let v = inp();
    let n = v.len();
    vec![(0..n).rev().map(|i| v[i] * (i + 1)).sum::<usize>()]
}
pub fn for_each_state() -> Vec<usize> {
    let v = inp();
    let mut s = 0;
    let mut out = vec![];
    v.iter().enumerate().for_each(|(i, x)| { s += i * x; out.push(s); });
    out.push(s);
    out
}
pub fn steps() -> Vec<usize> {
    let v = inp();
    let mut o: Vec<usize> = v.iter().step_by(2).copied().collect();
    o.extend((0..7).step_by(3));
    o
}
pub fn split_off_drain() -> Vec<usize> {
    let mut v = inp();
    let t = v.split_off(1);
    let mut w = inp();
    let d: Vec<usize> = w.drain(0..1).collect();
    let mut o = v;
    o.push(100);
    o.extend(t);
    o.push(100);
    o.extend(d);
    o.extend(w);
    o
}
fn picked<'a, T, U>(items: &'a [T], f: impl Fn(&T) -> U + 'a) -> impl Iterator<Item = U> + 'a {
    items.iter().map(move |x| f(x))
}
pub fn iter_ret_twice() -> Vec<usize> {
    let v = inp();
    let k = 3;
    picked(&v, |x| x + k).zip(picked(&v[1..], |x| 2 * x)).map(|(a, b)| a * b).collect()
}
fn scaled<'a>(v: &'a [usize], by: usize) -> impl Iterator<Item = usize> + 'a {
    let twice = by * 2;
    v.iter().map(move |x| x * by + twice)
}
pub fn iter_ret_lazy() -> Vec<usize> {
    let v = inp();
    let a = scaled(&v, 2);
    let b = scaled(&v, 5);
    let c: Vec<usize> = scaled(&v, 7).collect();
    let mut o: Vec<usize> = a.chain(b).collect();
    o.extend(c);
    o.push(7u8 as usize);
    o.push(usize::from(7u8) + usize::from(true));
    o
}
fn applied(f: impl Fn(usize) -> usize, n: usize) -> usize {
    let m = n + 1;
    f(m) + f(n)
}
pub fn nested_inline() -> Vec<usize> {
    let a = applied(|x| applied2(|y| x * y, x), 4);
    let b = applied(|x| x + 1, a);
    vec![a, b]
}
fn applied2(f: impl Fn(usize) -> usize, n: usize) -> usize {
    f(n) + f(n + 2)
}
