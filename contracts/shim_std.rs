// assumed contracts of small std functions, so that code using them can still be judged
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::min] (a: T, b: T) -> (r: T)
    ensures r == (if vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&b, &a) == Some(std::cmp::Ordering::Less) { b } else { a });
pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::max] (a: T, b: T) -> (r: T)
    ensures r == (if vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(&b, &a) == Some(std::cmp::Ordering::Less) { a } else { b });
