//! Reference bodies for the higher-order parts of the standard library. The analysis reads their MIR in place of
//! the original (pointer based) implementation; nothing in here is ever run. Primitive operations are calls of
//! functions that the analysis summarises itself (slices, vectors, maps, ranges).
#![allow(dead_code, clippy::all)]

/// Iterator methods, by name.
pub mod it {
    use std::cmp::Ordering;

    pub struct Map<I, F> {
        pub it: I,
        pub f: F,
    }
    impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            match self.it.next() {
                Some(x) => Some((self.f)(x)),
                None => None,
            }
        }
    }
    impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
        fn next_back(&mut self) -> Option<B> {
            match self.it.next_back() {
                Some(x) => Some((self.f)(x)),
                None => None,
            }
        }
    }
    pub fn map<I, F>(it: I, f: F) -> Map<I, F> {
        Map { it, f }
    }

    // `again()` restarts the enclosing loop with the next element (see the analysis)
    pub fn again<T>() -> T {
        unimplemented!()
    }

    pub struct Filter<I, P> {
        pub it: I,
        pub p: P,
    }
    impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for Filter<I, P> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.it.next() {
                Some(x) => {
                    if (self.p)(&x) {
                        Some(x)
                    } else {
                        again()
                    }
                },
                None => None,
            }
        }
    }
    pub fn filter<I, P>(it: I, p: P) -> Filter<I, P> {
        Filter { it, p }
    }

    pub struct FilterMap<I, F> {
        pub it: I,
        pub f: F,
    }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            match self.it.next() {
                Some(x) => match (self.f)(x) {
                    Some(y) => Some(y),
                    None => again(),
                },
                None => None,
            }
        }
    }
    pub fn filter_map<I, F>(it: I, f: F) -> FilterMap<I, F> {
        FilterMap { it, f }
    }

    pub struct Enumerate<I> {
        pub it: I,
        pub n: usize,
    }
    impl<I: Iterator> Iterator for Enumerate<I> {
        type Item = (usize, I::Item);
        fn next(&mut self) -> Option<(usize, I::Item)> {
            match self.it.next() {
                Some(x) => {
                    let n = self.n;
                    self.n += 1;
                    Some((n, x))
                },
                None => None,
            }
        }
    }
    impl<I: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Enumerate<I> {
        fn next_back(&mut self) -> Option<(usize, I::Item)> {
            let len = self.it.len();
            match self.it.next_back() {
                Some(x) => Some((self.n + len - 1, x)),
                None => None,
            }
        }
    }
    impl<I: ExactSizeIterator> ExactSizeIterator for Enumerate<I> {
        fn len(&self) -> usize {
            self.it.len()
        }
    }
    pub fn enumerate<I>(it: I) -> Enumerate<I> {
        Enumerate { it, n: 0 }
    }

    pub struct Zip<A, B> {
        pub a: A,
        pub b: B,
    }
    impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        fn next(&mut self) -> Option<(A::Item, B::Item)> {
            match self.a.next() {
                Some(x) => match self.b.next() {
                    Some(y) => Some((x, y)),
                    None => None,
                },
                None => None,
            }
        }
    }
    pub fn zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> {
        Zip { a, b: b.into_iter() }
    }

    pub struct Rev<I> {
        pub it: I,
    }
    impl<I: DoubleEndedIterator> Iterator for Rev<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            self.it.next_back()
        }
    }
    impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
        fn next_back(&mut self) -> Option<I::Item> {
            self.it.next()
        }
    }
    impl<I: ExactSizeIterator + DoubleEndedIterator> ExactSizeIterator for Rev<I> {
        fn len(&self) -> usize {
            self.it.len()
        }
    }
    pub fn rev<I>(it: I) -> Rev<I> {
        Rev { it }
    }

    pub struct Copied<I> {
        pub it: I,
    }
    impl<'a, T: 'a + Copy, I: Iterator<Item = &'a T>> Iterator for Copied<I> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            match self.it.next() {
                Some(x) => Some(*x),
                None => None,
            }
        }
    }
    impl<'a, T: 'a + Copy, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Copied<I> {
        fn next_back(&mut self) -> Option<T> {
            match self.it.next_back() {
                Some(x) => Some(*x),
                None => None,
            }
        }
    }
    impl<'a, T: 'a + Copy, I: ExactSizeIterator<Item = &'a T>> ExactSizeIterator for Copied<I> {
        fn len(&self) -> usize {
            self.it.len()
        }
    }
    pub fn copied<I>(it: I) -> Copied<I> {
        Copied { it }
    }
    pub fn cloned<I>(it: I) -> Copied<I> {
        Copied { it }
    }

    pub struct Skip<I> {
        pub it: I,
        pub n: usize,
    }
    impl<I: Iterator> Iterator for Skip<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.n > 0 {
                self.n -= 1;
                match self.it.next() {
                    Some(_) => again(),
                    None => None,
                }
            } else {
                self.it.next()
            }
        }
    }
    pub fn skip<I>(it: I, n: usize) -> Skip<I> {
        Skip { it, n }
    }

    pub struct Take<I> {
        pub it: I,
        pub n: usize,
    }
    impl<I: Iterator> Iterator for Take<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.n != 0 {
                self.n -= 1;
                self.it.next()
            } else {
                None
            }
        }
    }
    pub fn take<I>(it: I, n: usize) -> Take<I> {
        Take { it, n }
    }

    pub struct TakeWhile<I, P> {
        pub it: I,
        pub p: P,
        pub done: bool,
    }
    impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, P> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.done {
                return None;
            }
            match self.it.next() {
                Some(x) => {
                    if (self.p)(&x) {
                        Some(x)
                    } else {
                        self.done = true;
                        None
                    }
                },
                None => None,
            }
        }
    }
    pub fn take_while<I, P>(it: I, p: P) -> TakeWhile<I, P> {
        TakeWhile { it, p, done: false }
    }

    pub struct Chain<A, B> {
        pub a: A,
        pub b: B,
        pub first: bool,
    }
    impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
        type Item = A::Item;
        fn next(&mut self) -> Option<A::Item> {
            if self.first {
                match self.a.next() {
                    Some(x) => return Some(x),
                    None => self.first = false,
                }
            }
            self.b.next()
        }
    }
    pub fn chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> {
        Chain { a, b: b.into_iter(), first: true }
    }

    pub struct Peekable<I: Iterator> {
        pub it: I,
        pub peeked: Option<Option<I::Item>>,
    }
    impl<I: Iterator> Iterator for Peekable<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.peeked.take() {
                Some(v) => v,
                None => self.it.next(),
            }
        }
    }
    pub fn peekable<I: Iterator>(it: I) -> Peekable<I> {
        Peekable { it, peeked: None }
    }

    pub struct Inspect<I, F> {
        pub it: I,
        pub f: F,
    }
    impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.it.next() {
                Some(x) => {
                    (self.f)(&x);
                    Some(x)
                },
                None => None,
            }
        }
    }
    pub fn inspect<I, F>(it: I, f: F) -> Inspect<I, F> {
        Inspect { it, f }
    }

    pub fn by_ref<I: Iterator>(it: &mut I) -> &mut I {
        it
    }
    pub fn fuse<I>(it: I) -> I {
        it
    }

    // consumers
    pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
        while let Some(x) = it.next() {
            f(x);
        }
    }
    pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
        let mut acc = init;
        while let Some(x) = it.next() {
            acc = f(acc, x);
        }
        acc
    }
    pub fn try_for_each_result<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
        while let Some(x) = it.next() {
            match f(x) {
                Ok(()) => {},
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if f(x) {
                return true;
            }
        }
        false
    }
    pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
        while let Some(x) = it.next() {
            if !f(x) {
                return false;
            }
        }
        true
    }
    pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
        while let Some(x) = it.next() {
            if p(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = it.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
        let mut n = 0;
        while let Some(x) = it.next() {
            if p(x) {
                return Some(n);
            }
            n += 1;
        }
        None
    }
    pub fn count<I: Iterator>(mut it: I) -> usize {
        let mut n = 0;
        while let Some(_) = it.next() {
            n += 1;
        }
        n
    }
    pub fn sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
        let mut n = 0;
        while let Some(x) = it.next() {
            n += x;
        }
        n
    }
    pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
        let mut r = None;
        while let Some(x) = it.next() {
            r = Some(x);
        }
        r
    }
    pub fn nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
        let mut i = 0;
        while let Some(x) = it.next() {
            if i == n {
                return Some(x);
            }
            i += 1;
        }
        None
    }
    pub fn max<I: Iterator>(mut it: I) -> Option<I::Item>
    where
        I::Item: Ord,
    {
        let mut r = it.next()?;
        while let Some(x) = it.next() {
            if x >= r {
                r = x;
            }
        }
        Some(r)
    }
    pub fn min<I: Iterator>(mut it: I) -> Option<I::Item>
    where
        I::Item: Ord,
    {
        let mut r = it.next()?;
        while let Some(x) = it.next() {
            if x < r {
                r = x;
            }
        }
        Some(r)
    }
    pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
        let mut l = Vec::new();
        let mut r = Vec::new();
        while let Some(x) = it.next() {
            if f(&x) {
                l.push(x);
            } else {
                r.push(x);
            }
        }
        (l, r)
    }

    pub enum Either<L, R> {
        Left(L),
        Right(R),
    }
    pub fn partition_map<I: Iterator, L, R, F: FnMut(I::Item) -> Either<L, R>>(mut it: I, mut f: F) -> (Vec<L>, Vec<R>) {
        let mut l = Vec::new();
        let mut r = Vec::new();
        while let Some(x) = it.next() {
            match f(x) {
                Either::Left(y) => l.push(y),
                Either::Right(y) => r.push(y),
            }
        }
        (l, r)
    }
    pub fn unzip<I: Iterator<Item = (A, B)>, A, B>(mut it: I) -> (Vec<A>, Vec<B>) {
        let mut l = Vec::new();
        let mut r = Vec::new();
        while let Some((a, b)) = it.next() {
            l.push(a);
            r.push(b);
        }
        (l, r)
    }
    pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            v.push(x);
        }
        v
    }
    pub fn collect_map<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(mut it: I) -> std::collections::HashMap<K, V> {
        let mut m = std::collections::HashMap::new();
        while let Some((k, v)) = it.next() {
            m.insert(k, v);
        }
        m
    }
    pub fn collect_option<I: Iterator<Item = Option<T>>, T>(mut it: I) -> Option<Vec<T>> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x {
                Some(y) => v.push(y),
                None => return None,
            }
        }
        Some(v)
    }
    pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E>(mut it: I) -> Result<Vec<T>, E> {
        let mut v = Vec::new();
        while let Some(x) = it.next() {
            match x {
                Ok(y) => v.push(y),
                Err(e) => return Err(e),
            }
        }
        Ok(v)
    }
    pub fn cmp_dummy(a: usize, b: usize) -> Ordering {
        a.cmp(&b)
    }
}

/// methods of Peekable
pub mod peekable {
    use super::it::Peekable;
    pub fn peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
        if p.peeked.is_none() {
            p.peeked = Some(p.it.next());
        }
        match &p.peeked {
            Some(Some(x)) => Some(x),
            _ => None,
        }
    }
    pub fn next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
        match p.next() {
            Some(x) => {
                if f(&x) {
                    Some(x)
                } else {
                    p.peeked = Some(Some(x));
                    None
                }
            },
            None => {
                p.peeked = Some(None);
                None
            },
        }
    }
    pub fn next_if_eq<I: Iterator<Item = usize>>(p: &mut Peekable<I>, e: &usize) -> Option<usize> {
        match p.next() {
            Some(x) => {
                if x == *e {
                    Some(x)
                } else {
                    p.peeked = Some(Some(x));
                    None
                }
            },
            None => {
                p.peeked = Some(None);
                None
            },
        }
    }
}

/// slices and vectors, by method name
pub mod slice {
    pub fn contains(s: &[usize], x: &usize) -> bool {
        for e in s {
            if *e == *x {
                return true;
            }
        }
        false
    }
    pub fn extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
        for x in it {
            v.push(x);
        }
    }
    pub fn extend_from_slice<T: Copy>(v: &mut Vec<T>, s: &[T]) {
        for x in s {
            v.push(*x);
        }
    }
    pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
        let old = std::mem::take(v);
        for x in old {
            if f(&x) {
                v.push(x);
            }
        }
    }
    pub fn fill<T: Copy>(s: &mut [T], x: T) {
        for e in s.iter_mut() {
            *e = x;
        }
    }
    pub fn partition_point<T, P: FnMut(&T) -> bool>(s: &[T], mut p: P) -> usize {
        let mut n = 0;
        for x in s {
            if !p(x) {
                return n;
            }
            n += 1;
        }
        n
    }
}
