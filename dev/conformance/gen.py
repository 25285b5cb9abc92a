pre='''#![allow(warnings)]
use amcl_wrapper::field_elem::{FieldElement, FieldElementVector};
use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
use amcl_wrapper::group_elem_g1::{G1, G1Vector};
use std::collections::{HashMap, BTreeMap};
use std::ops::{Add, Index};
pub fn fe(v: u64) -> FieldElement { FieldElement::from(v) }
fn double(x: &FieldElement) -> FieldElement { x + x }
fn apply<F: Fn(&FieldElement) -> FieldElement>(f: &[FieldElement], g: F) -> Vec<FieldElement> { f.iter().map(|x| g(x)).collect() }
fn apply_dyn(f: &[FieldElement], g: &dyn Fn(&FieldElement) -> FieldElement) -> Vec<FieldElement> { f.iter().map(|x| g(x)).collect() }
fn bump(v: &mut Vec<FieldElement>) { v.push(fe(1)); v[0] += &fe(1); }
fn bump_slice(v: &mut [FieldElement]) { for x in v.iter_mut() { *x += &fe(1); } }
#[derive(Clone)] pub struct Pt { x: FieldElement, y: FieldElement }
impl Pt {
  fn new(x: FieldElement) -> Self { Pt { x, y: FieldElement::zero() } }
  fn with_y(mut self, y: FieldElement) -> Self { self.y += y; self }
  fn plus(&self, o: &Pt) -> Pt { Pt { x: &self.x + &o.x, y: &self.y + &o.y } }
  fn bump(&mut self) { self.x += &fe(1); let t = self.x.clone(); self.y = t; }
  fn y_mut(&mut self) -> &mut FieldElement { &mut self.y }
  fn pick(&mut self, b: bool) -> &mut FieldElement { if b { &mut self.x } else { &mut self.y } }
}
impl Add for Pt { type Output = Pt; fn add(self, o: Pt) -> Pt { Pt { x: self.x + o.x, y: self.y + o.y } } }
impl From<FieldElement> for Pt { fn from(x: FieldElement) -> Pt { Pt { y: x.square(), x } } }
pub struct Wrap(Vec<FieldElement>);
impl Wrap { fn iter(&self) -> std::slice::Iter<FieldElement> { self.0.iter() } }
impl Index<usize> for Wrap { type Output = FieldElement; fn index(&self, i: usize) -> &FieldElement { &self.0[i] } }
pub enum Sh { A(FieldElement), B { k: u64 }, C }
impl Sh { fn val(&self) -> FieldElement { match self { Sh::A(x) => x.clone(), Sh::B { k } => fe(*k), Sh::C => fe(9) } } }
#[derive(PartialEq)] pub enum Sh2 { P(u64), Q }
pub trait Val { fn val(&self) -> FieldElement; fn twice(&self) -> FieldElement { let v = self.val(); &v + &v } }
impl Val for Pt { fn val(&self) -> FieldElement { self.x.clone() } }
impl Val for Wrap { fn val(&self) -> FieldElement { self.0[0].clone() } }
fn gval<T: Val>(t: &T) -> FieldElement { t.val() }
fn evens(n: usize) -> impl Iterator<Item = u64> { (0..n as u64).map(|x| 2 * x) }
#[derive(Default)] pub struct Df { a: u64, b: Vec<u64> }
pub struct Cnt { i: u64, n: u64 }
impl Iterator for Cnt { type Item = u64; fn next(&mut self) -> Option<u64> { if self.i < self.n { self.i += 1; Some(self.i) } else { None } } }
#[derive(Default)] pub struct Acc { s: Vec<FieldElement>, k: usize }
impl Acc {
  fn add(&mut self, x: &FieldElement) { self.k += 1; self.s.push(x * &fe(self.k as u64)); }
  fn added(mut self, x: &FieldElement) -> Self { self.add(x); self }
  fn finish(self) -> Vec<FieldElement> { self.s }
}
'''
names=[];out=pre
import os
skip=set(open('skip.txt').read().split()) if os.path.exists('skip.txt') else set()
for l in open('tests.txt'):
    l=l.rstrip('\n')
    if not l or l[0]=='#': continue
    n,b=l.split(': ',1)
    if n in skip: continue
    names.append(n); out+='pub fn t_%s(f: &[FieldElement], u: &[u64], n: usize) -> Vec<FieldElement> { %s }\n'%(n,b)
open('src/lib.rs','w').write(out)
m='use bulletproofs_amcl::*;\nuse amcl_wrapper::field_elem::FieldElement;\nfn main() { let f: Vec<FieldElement> = vec![3u64,11,7,5,2].into_iter().map(fe).collect(); let u = vec![2u64,7,12,5,9];\n for n in 3..6 { let f=&f[..n]; let u=&u[..n];\n'
for n in names: m+='  {let r=t_%s(f,u,n); println!("%s {} {}", n, r.iter().map(|x| x.to_hex()).collect::<Vec<_>>().join(","));}\n'%(n,n)
m+='}}'
open('src/main.rs','w').write(m)
