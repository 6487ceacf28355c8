use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::ops::{Add, Deref, Div, Mul, Neg, Range, Sub};
