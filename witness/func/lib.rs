//! Functions of every kind the func attribute accepts, and uses of all their entry points (written by
//! tools/gen_witness_func.py). Nothing here is run: what the attribute makes of them is analysed. The functions of `user`
//! stand for the body the user writes.
#![allow(dead_code, unused_variables, unused_mut, clippy::all)]
use crossmist::{func, Object};
use std::io::Result as IoResult;

pub mod user {
    use crossmist::Object;
    #[inline(never)]
    pub fn none() {
        panic!()
    }
    #[inline(never)]
    pub fn none_unit() -> () {
        panic!()
    }
    #[inline(never)]
    pub fn none_value() -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn one(a: String) {
        panic!()
    }
    #[inline(never)]
    pub fn one_value(a: String) -> String {
        panic!()
    }
    #[inline(never)]
    pub fn two(a: String, b: String) -> (String, String) {
        panic!()
    }
    #[inline(never)]
    pub fn two_swapped_names(b: String, a: String) -> (String, String) {
        panic!()
    }
    #[inline(never)]
    pub fn two_unit(a: String, b: String) {
        panic!()
    }
    #[inline(never)]
    pub fn three(a: u32, b: u32, c: u32) -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn four_types(a: u32, b: String, c: u32, d: String) -> Vec<String> {
        panic!()
    }
    #[inline(never)]
    pub fn five(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
        panic!()
    }
    #[inline(never)]
    pub fn seven(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
        panic!()
    }
    #[inline(never)]
    pub fn twelve(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
        panic!()
    }
    #[inline(never)]
    pub fn mutable(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
        panic!()
    }
    #[inline(never)]
    pub fn tuple(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
        panic!()
    }
    #[inline(never)]
    pub fn unit_arg(a: (), b: ()) -> ((), ()) {
        panic!()
    }
    #[inline(never)]
    pub fn channels(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
        panic!()
    }
    #[inline(never)]
    pub fn gives_channel(n: u32) -> crossmist::Sender<u32> {
        panic!()
    }
    #[inline(never)]
    pub fn nested_option(n: u32) -> Option<Option<u32>> {
        panic!()
    }
    #[inline(never)]
    pub fn names(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn generic<T: Object + 'static>(a: T, b: T) -> T {
        panic!()
    }
    #[inline(never)]
    pub fn generic_two<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> U {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_none() {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_value() -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_two(a: String, b: String) -> (String, String) {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_unit(a: String, b: String) {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_current(a: u32, b: u32, c: u32) -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn tokio_result(a: u32) -> Result<(), String> {
        panic!()
    }
    #[inline(never)]
    pub fn smol_none() {
        panic!()
    }
    #[inline(never)]
    pub fn smol_value() -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn smol_two(a: String, b: String) -> (String, String) {
        panic!()
    }
    #[inline(never)]
    pub fn smol_three(a: u32, b: u32, c: u32) -> u32 {
        panic!()
    }
    #[inline(never)]
    pub fn smol_unit(a: String, b: String) {
        panic!()
    }
}

#[func]
pub fn none() {
    user::none()
}
#[func]
pub fn none_unit() -> () {
    user::none_unit()
}
#[func]
pub fn none_value() -> u32 {
    user::none_value()
}
#[func]
pub fn one(a: String) {
    user::one(a)
}
#[func]
pub fn one_value(a: String) -> String {
    user::one_value(a)
}
#[func]
pub fn two(a: String, b: String) -> (String, String) {
    user::two(a, b)
}
#[func]
pub fn two_swapped_names(b: String, a: String) -> (String, String) {
    user::two_swapped_names(b, a)
}
#[func]
pub fn two_unit(a: String, b: String) {
    user::two_unit(a, b)
}
#[func]
pub fn three(a: u32, b: u32, c: u32) -> u32 {
    user::three(a, b, c)
}
#[func]
pub fn four_types(a: u32, b: String, c: u32, d: String) -> Vec<String> {
    user::four_types(a, b, c, d)
}
#[func]
pub fn five(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
    user::five(a, b, c, d, e)
}
#[func]
pub fn seven(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
    user::seven(a, b, c, d, e, f, g)
}
#[func]
pub fn twelve(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
    user::twelve(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11)
}
#[func]
pub fn mutable(mut a: Vec<u32>, mut b: Vec<u32>) -> Vec<u32> {
    user::mutable(a, b)
}
#[func]
pub fn tuple(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
    user::tuple(a, b)
}
#[func]
pub fn unit_arg(a: (), b: ()) -> ((), ()) {
    user::unit_arg(a, b)
}
#[func]
pub fn channels(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
    user::channels(tx, rx)
}
#[func]
pub fn gives_channel(n: u32) -> crossmist::Sender<u32> {
    user::gives_channel(n)
}
#[func]
pub fn nested_option(n: u32) -> Option<Option<u32>> {
    user::nested_option(n)
}
#[func]
pub fn names(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
    user::names(args, entry, body, func, return_value)
}
#[func]
pub fn generic<T: Object + 'static>(a: T, b: T) -> T {
    user::generic(a, b)
}
#[func]
pub fn generic_two<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> U {
    user::generic_two(a, b, c)
}
#[func(tokio)]
pub async fn tokio_none() {
    user::tokio_none()
}
#[func(tokio)]
pub async fn tokio_value() -> u32 {
    user::tokio_value()
}
#[func(tokio)]
pub async fn tokio_two(a: String, b: String) -> (String, String) {
    user::tokio_two(a, b)
}
#[func(tokio)]
pub async fn tokio_unit(a: String, b: String) {
    user::tokio_unit(a, b)
}
#[func(tokio(flavor = "current_thread"))]
pub async fn tokio_current(a: u32, b: u32, c: u32) -> u32 {
    user::tokio_current(a, b, c)
}
#[func(tokio)]
pub async fn tokio_result(a: u32) -> Result<(), String> {
    user::tokio_result(a)
}
#[func(smol)]
pub async fn smol_none() {
    user::smol_none()
}
#[func(smol)]
pub async fn smol_value() -> u32 {
    user::smol_value()
}
#[func(smol)]
pub async fn smol_two(a: String, b: String) -> (String, String) {
    user::smol_two(a, b)
}
#[func(smol)]
pub async fn smol_three(a: u32, b: u32, c: u32) -> u32 {
    user::smol_three(a, b, c)
}
#[func(smol)]
pub async fn smol_unit(a: String, b: String) {
    user::smol_unit(a, b)
}
pub mod w_none {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<()>> {
        super::none.spawn()
    }
    pub fn run() -> IoResult<()> {
        super::none.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<()>> {
        super::none.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<()> {
        super::none.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<()>> {
        super::none.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<()> {
        super::none.run_smol().await
    }
    pub async fn call() -> () {
        crossmist::FnObject::call_object(&super::none, ())
    }
    pub async fn call_mut() -> () {
        let mut called = super::none;
        crossmist::FnMutObject::call_object_mut(&mut called, ())
    }
    pub async fn call_once() -> () {
        crossmist::FnOnceObject::call_object_once(super::none, ())
    }
    pub async fn call_box() -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::none), ())
    }
}
pub mod w_none_unit {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<()>> {
        super::none_unit.spawn()
    }
    pub fn run() -> IoResult<()> {
        super::none_unit.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<()>> {
        super::none_unit.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<()> {
        super::none_unit.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<()>> {
        super::none_unit.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<()> {
        super::none_unit.run_smol().await
    }
    pub async fn call() -> () {
        crossmist::FnObject::call_object(&super::none_unit, ())
    }
    pub async fn call_mut() -> () {
        let mut called = super::none_unit;
        crossmist::FnMutObject::call_object_mut(&mut called, ())
    }
    pub async fn call_once() -> () {
        crossmist::FnOnceObject::call_object_once(super::none_unit, ())
    }
    pub async fn call_box() -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::none_unit), ())
    }
}
pub mod w_none_value {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<u32>> {
        super::none_value.spawn()
    }
    pub fn run() -> IoResult<u32> {
        super::none_value.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<u32>> {
        super::none_value.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<u32> {
        super::none_value.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<u32>> {
        super::none_value.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<u32> {
        super::none_value.run_smol().await
    }
    pub async fn call() -> u32 {
        crossmist::FnObject::call_object(&super::none_value, ())
    }
    pub async fn call_mut() -> u32 {
        let mut called = super::none_value;
        crossmist::FnMutObject::call_object_mut(&mut called, ())
    }
    pub async fn call_once() -> u32 {
        crossmist::FnOnceObject::call_object_once(super::none_value, ())
    }
    pub async fn call_box() -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::none_value), ())
    }
}
pub mod w_one {
    use super::*;
    pub fn spawn(a: String) -> IoResult<crossmist::Child<()>> {
        super::one.spawn(a)
    }
    pub fn run(a: String) -> IoResult<()> {
        super::one.run(a)
    }
    pub async fn spawn_tokio(a: String) -> IoResult<crossmist::tokio::Child<()>> {
        super::one.spawn_tokio(a).await
    }
    pub async fn run_tokio(a: String) -> IoResult<()> {
        super::one.run_tokio(a).await
    }
    pub async fn spawn_smol(a: String) -> IoResult<crossmist::smol::Child<()>> {
        super::one.spawn_smol(a).await
    }
    pub async fn run_smol(a: String) -> IoResult<()> {
        super::one.run_smol(a).await
    }
    pub async fn call(a: String) -> () {
        crossmist::FnObject::call_object(&super::one, (a,))
    }
    pub async fn call_mut(a: String) -> () {
        let mut called = super::one;
        crossmist::FnMutObject::call_object_mut(&mut called, (a,))
    }
    pub async fn call_once(a: String) -> () {
        crossmist::FnOnceObject::call_object_once(super::one, (a,))
    }
    pub async fn call_box(a: String) -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::one), (a,))
    }
}
pub mod w_one_value {
    use super::*;
    pub fn spawn(a: String) -> IoResult<crossmist::Child<String>> {
        super::one_value.spawn(a)
    }
    pub fn run(a: String) -> IoResult<String> {
        super::one_value.run(a)
    }
    pub async fn spawn_tokio(a: String) -> IoResult<crossmist::tokio::Child<String>> {
        super::one_value.spawn_tokio(a).await
    }
    pub async fn run_tokio(a: String) -> IoResult<String> {
        super::one_value.run_tokio(a).await
    }
    pub async fn spawn_smol(a: String) -> IoResult<crossmist::smol::Child<String>> {
        super::one_value.spawn_smol(a).await
    }
    pub async fn run_smol(a: String) -> IoResult<String> {
        super::one_value.run_smol(a).await
    }
    pub async fn call(a: String) -> String {
        crossmist::FnObject::call_object(&super::one_value, (a,))
    }
    pub async fn call_mut(a: String) -> String {
        let mut called = super::one_value;
        crossmist::FnMutObject::call_object_mut(&mut called, (a,))
    }
    pub async fn call_once(a: String) -> String {
        crossmist::FnOnceObject::call_object_once(super::one_value, (a,))
    }
    pub async fn call_box(a: String) -> String {
        crossmist::FnOnceObject::call_object_box(Box::new(super::one_value), (a,))
    }
}
pub mod w_two {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<(String, String)>> {
        super::two.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<(String, String)> {
        super::two.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<(String, String)>> {
        super::two.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<(String, String)> {
        super::two.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<(String, String)>> {
        super::two.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<(String, String)> {
        super::two.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> (String, String) {
        crossmist::FnObject::call_object(&super::two, (a, b))
    }
    pub async fn call_mut(a: String, b: String) -> (String, String) {
        let mut called = super::two;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b))
    }
    pub async fn call_once(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_once(super::two, (a, b))
    }
    pub async fn call_box(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_box(Box::new(super::two), (a, b))
    }
}
pub mod w_two_swapped_names {
    use super::*;
    pub fn spawn(b: String, a: String) -> IoResult<crossmist::Child<(String, String)>> {
        super::two_swapped_names.spawn(b, a)
    }
    pub fn run(b: String, a: String) -> IoResult<(String, String)> {
        super::two_swapped_names.run(b, a)
    }
    pub async fn spawn_tokio(b: String, a: String) -> IoResult<crossmist::tokio::Child<(String, String)>> {
        super::two_swapped_names.spawn_tokio(b, a).await
    }
    pub async fn run_tokio(b: String, a: String) -> IoResult<(String, String)> {
        super::two_swapped_names.run_tokio(b, a).await
    }
    pub async fn spawn_smol(b: String, a: String) -> IoResult<crossmist::smol::Child<(String, String)>> {
        super::two_swapped_names.spawn_smol(b, a).await
    }
    pub async fn run_smol(b: String, a: String) -> IoResult<(String, String)> {
        super::two_swapped_names.run_smol(b, a).await
    }
    pub async fn call(b: String, a: String) -> (String, String) {
        crossmist::FnObject::call_object(&super::two_swapped_names, (b, a))
    }
    pub async fn call_mut(b: String, a: String) -> (String, String) {
        let mut called = super::two_swapped_names;
        crossmist::FnMutObject::call_object_mut(&mut called, (b, a))
    }
    pub async fn call_once(b: String, a: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_once(super::two_swapped_names, (b, a))
    }
    pub async fn call_box(b: String, a: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_box(Box::new(super::two_swapped_names), (b, a))
    }
}
pub mod w_two_unit {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<()>> {
        super::two_unit.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<()> {
        super::two_unit.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<()>> {
        super::two_unit.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<()> {
        super::two_unit.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<()>> {
        super::two_unit.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<()> {
        super::two_unit.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> () {
        crossmist::FnObject::call_object(&super::two_unit, (a, b))
    }
    pub async fn call_mut(a: String, b: String) -> () {
        let mut called = super::two_unit;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b))
    }
    pub async fn call_once(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_once(super::two_unit, (a, b))
    }
    pub async fn call_box(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::two_unit), (a, b))
    }
}
pub mod w_three {
    use super::*;
    pub fn spawn(a: u32, b: u32, c: u32) -> IoResult<crossmist::Child<u32>> {
        super::three.spawn(a, b, c)
    }
    pub fn run(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::three.run(a, b, c)
    }
    pub async fn spawn_tokio(a: u32, b: u32, c: u32) -> IoResult<crossmist::tokio::Child<u32>> {
        super::three.spawn_tokio(a, b, c).await
    }
    pub async fn run_tokio(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::three.run_tokio(a, b, c).await
    }
    pub async fn spawn_smol(a: u32, b: u32, c: u32) -> IoResult<crossmist::smol::Child<u32>> {
        super::three.spawn_smol(a, b, c).await
    }
    pub async fn run_smol(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::three.run_smol(a, b, c).await
    }
    pub async fn call(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnObject::call_object(&super::three, (a, b, c))
    }
    pub async fn call_mut(a: u32, b: u32, c: u32) -> u32 {
        let mut called = super::three;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c))
    }
    pub async fn call_once(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_once(super::three, (a, b, c))
    }
    pub async fn call_box(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::three), (a, b, c))
    }
}
pub mod w_four_types {
    use super::*;
    pub fn spawn(a: u32, b: String, c: u32, d: String) -> IoResult<crossmist::Child<Vec<String>>> {
        super::four_types.spawn(a, b, c, d)
    }
    pub fn run(a: u32, b: String, c: u32, d: String) -> IoResult<Vec<String>> {
        super::four_types.run(a, b, c, d)
    }
    pub async fn spawn_tokio(a: u32, b: String, c: u32, d: String) -> IoResult<crossmist::tokio::Child<Vec<String>>> {
        super::four_types.spawn_tokio(a, b, c, d).await
    }
    pub async fn run_tokio(a: u32, b: String, c: u32, d: String) -> IoResult<Vec<String>> {
        super::four_types.run_tokio(a, b, c, d).await
    }
    pub async fn spawn_smol(a: u32, b: String, c: u32, d: String) -> IoResult<crossmist::smol::Child<Vec<String>>> {
        super::four_types.spawn_smol(a, b, c, d).await
    }
    pub async fn run_smol(a: u32, b: String, c: u32, d: String) -> IoResult<Vec<String>> {
        super::four_types.run_smol(a, b, c, d).await
    }
    pub async fn call(a: u32, b: String, c: u32, d: String) -> Vec<String> {
        crossmist::FnObject::call_object(&super::four_types, (a, b, c, d))
    }
    pub async fn call_mut(a: u32, b: String, c: u32, d: String) -> Vec<String> {
        let mut called = super::four_types;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c, d))
    }
    pub async fn call_once(a: u32, b: String, c: u32, d: String) -> Vec<String> {
        crossmist::FnOnceObject::call_object_once(super::four_types, (a, b, c, d))
    }
    pub async fn call_box(a: u32, b: String, c: u32, d: String) -> Vec<String> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::four_types), (a, b, c, d))
    }
}
pub mod w_five {
    use super::*;
    pub fn spawn(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<crossmist::Child<Result<String, String>>> {
        super::five.spawn(a, b, c, d, e)
    }
    pub fn run(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<Result<String, String>> {
        super::five.run(a, b, c, d, e)
    }
    pub async fn spawn_tokio(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<crossmist::tokio::Child<Result<String, String>>> {
        super::five.spawn_tokio(a, b, c, d, e).await
    }
    pub async fn run_tokio(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<Result<String, String>> {
        super::five.run_tokio(a, b, c, d, e).await
    }
    pub async fn spawn_smol(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<crossmist::smol::Child<Result<String, String>>> {
        super::five.spawn_smol(a, b, c, d, e).await
    }
    pub async fn run_smol(a: u32, b: u32, c: String, d: String, e: u32) -> IoResult<Result<String, String>> {
        super::five.run_smol(a, b, c, d, e).await
    }
    pub async fn call(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
        crossmist::FnObject::call_object(&super::five, (a, b, c, d, e))
    }
    pub async fn call_mut(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
        let mut called = super::five;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c, d, e))
    }
    pub async fn call_once(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
        crossmist::FnOnceObject::call_object_once(super::five, (a, b, c, d, e))
    }
    pub async fn call_box(a: u32, b: u32, c: String, d: String, e: u32) -> Result<String, String> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::five), (a, b, c, d, e))
    }
}
pub mod w_seven {
    use super::*;
    pub fn spawn(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<crossmist::Child<[u8; 7]>> {
        super::seven.spawn(a, b, c, d, e, f, g)
    }
    pub fn run(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<[u8; 7]> {
        super::seven.run(a, b, c, d, e, f, g)
    }
    pub async fn spawn_tokio(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<crossmist::tokio::Child<[u8; 7]>> {
        super::seven.spawn_tokio(a, b, c, d, e, f, g).await
    }
    pub async fn run_tokio(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<[u8; 7]> {
        super::seven.run_tokio(a, b, c, d, e, f, g).await
    }
    pub async fn spawn_smol(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<crossmist::smol::Child<[u8; 7]>> {
        super::seven.spawn_smol(a, b, c, d, e, f, g).await
    }
    pub async fn run_smol(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> IoResult<[u8; 7]> {
        super::seven.run_smol(a, b, c, d, e, f, g).await
    }
    pub async fn call(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
        crossmist::FnObject::call_object(&super::seven, (a, b, c, d, e, f, g))
    }
    pub async fn call_mut(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
        let mut called = super::seven;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c, d, e, f, g))
    }
    pub async fn call_once(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
        crossmist::FnOnceObject::call_object_once(super::seven, (a, b, c, d, e, f, g))
    }
    pub async fn call_box(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8) -> [u8; 7] {
        crossmist::FnOnceObject::call_object_box(Box::new(super::seven), (a, b, c, d, e, f, g))
    }
}
pub mod w_twelve {
    use super::*;
    pub fn spawn(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<crossmist::Child<u64>> {
        super::twelve.spawn(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11)
    }
    pub fn run(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<u64> {
        super::twelve.run(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11)
    }
    pub async fn spawn_tokio(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<crossmist::tokio::Child<u64>> {
        super::twelve.spawn_tokio(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11).await
    }
    pub async fn run_tokio(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<u64> {
        super::twelve.run_tokio(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11).await
    }
    pub async fn spawn_smol(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<crossmist::smol::Child<u64>> {
        super::twelve.spawn_smol(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11).await
    }
    pub async fn run_smol(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> IoResult<u64> {
        super::twelve.run_smol(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11).await
    }
    pub async fn call(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
        crossmist::FnObject::call_object(&super::twelve, (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11))
    }
    pub async fn call_mut(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
        let mut called = super::twelve;
        crossmist::FnMutObject::call_object_mut(&mut called, (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11))
    }
    pub async fn call_once(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
        crossmist::FnOnceObject::call_object_once(super::twelve, (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11))
    }
    pub async fn call_box(x0: u32, x1: u32, x2: u32, x3: u32, x4: u32, x5: u32, x6: u32, x7: u32, x8: u32, x9: u32, x10: u32, x11: u32) -> u64 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::twelve), (x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11))
    }
}
pub mod w_mutable {
    use super::*;
    pub fn spawn(a: Vec<u32>, b: Vec<u32>) -> IoResult<crossmist::Child<Vec<u32>>> {
        super::mutable.spawn(a, b)
    }
    pub fn run(a: Vec<u32>, b: Vec<u32>) -> IoResult<Vec<u32>> {
        super::mutable.run(a, b)
    }
    pub async fn spawn_tokio(a: Vec<u32>, b: Vec<u32>) -> IoResult<crossmist::tokio::Child<Vec<u32>>> {
        super::mutable.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: Vec<u32>, b: Vec<u32>) -> IoResult<Vec<u32>> {
        super::mutable.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: Vec<u32>, b: Vec<u32>) -> IoResult<crossmist::smol::Child<Vec<u32>>> {
        super::mutable.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: Vec<u32>, b: Vec<u32>) -> IoResult<Vec<u32>> {
        super::mutable.run_smol(a, b).await
    }
    pub async fn call(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
        crossmist::FnObject::call_object(&super::mutable, (a, b))
    }
    pub async fn call_mut(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
        let mut called = super::mutable;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b))
    }
    pub async fn call_once(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
        crossmist::FnOnceObject::call_object_once(super::mutable, (a, b))
    }
    pub async fn call_box(a: Vec<u32>, b: Vec<u32>) -> Vec<u32> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::mutable), (a, b))
    }
}
pub mod w_tuple {
    use super::*;
    pub fn spawn(a: (u32, String), b: [u8; 4]) -> IoResult<crossmist::Child<Option<(u32, String)>>> {
        super::tuple.spawn(a, b)
    }
    pub fn run(a: (u32, String), b: [u8; 4]) -> IoResult<Option<(u32, String)>> {
        super::tuple.run(a, b)
    }
    pub async fn spawn_tokio(a: (u32, String), b: [u8; 4]) -> IoResult<crossmist::tokio::Child<Option<(u32, String)>>> {
        super::tuple.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: (u32, String), b: [u8; 4]) -> IoResult<Option<(u32, String)>> {
        super::tuple.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: (u32, String), b: [u8; 4]) -> IoResult<crossmist::smol::Child<Option<(u32, String)>>> {
        super::tuple.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: (u32, String), b: [u8; 4]) -> IoResult<Option<(u32, String)>> {
        super::tuple.run_smol(a, b).await
    }
    pub async fn call(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
        crossmist::FnObject::call_object(&super::tuple, (a, b))
    }
    pub async fn call_mut(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
        let mut called = super::tuple;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b))
    }
    pub async fn call_once(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
        crossmist::FnOnceObject::call_object_once(super::tuple, (a, b))
    }
    pub async fn call_box(a: (u32, String), b: [u8; 4]) -> Option<(u32, String)> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tuple), (a, b))
    }
}
pub mod w_unit_arg {
    use super::*;
    pub fn spawn(a: (), b: ()) -> IoResult<crossmist::Child<((), ())>> {
        super::unit_arg.spawn(a, b)
    }
    pub fn run(a: (), b: ()) -> IoResult<((), ())> {
        super::unit_arg.run(a, b)
    }
    pub async fn spawn_tokio(a: (), b: ()) -> IoResult<crossmist::tokio::Child<((), ())>> {
        super::unit_arg.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: (), b: ()) -> IoResult<((), ())> {
        super::unit_arg.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: (), b: ()) -> IoResult<crossmist::smol::Child<((), ())>> {
        super::unit_arg.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: (), b: ()) -> IoResult<((), ())> {
        super::unit_arg.run_smol(a, b).await
    }
    pub async fn call(a: (), b: ()) -> ((), ()) {
        crossmist::FnObject::call_object(&super::unit_arg, (a, b))
    }
    pub async fn call_mut(a: (), b: ()) -> ((), ()) {
        let mut called = super::unit_arg;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b))
    }
    pub async fn call_once(a: (), b: ()) -> ((), ()) {
        crossmist::FnOnceObject::call_object_once(super::unit_arg, (a, b))
    }
    pub async fn call_box(a: (), b: ()) -> ((), ()) {
        crossmist::FnOnceObject::call_object_box(Box::new(super::unit_arg), (a, b))
    }
}
pub mod w_channels {
    use super::*;
    pub fn spawn(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<crossmist::Child<Result<(), String>>> {
        super::channels.spawn(tx, rx)
    }
    pub fn run(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<Result<(), String>> {
        super::channels.run(tx, rx)
    }
    pub async fn spawn_tokio(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<crossmist::tokio::Child<Result<(), String>>> {
        super::channels.spawn_tokio(tx, rx).await
    }
    pub async fn run_tokio(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<Result<(), String>> {
        super::channels.run_tokio(tx, rx).await
    }
    pub async fn spawn_smol(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<crossmist::smol::Child<Result<(), String>>> {
        super::channels.spawn_smol(tx, rx).await
    }
    pub async fn run_smol(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> IoResult<Result<(), String>> {
        super::channels.run_smol(tx, rx).await
    }
    pub async fn call(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
        crossmist::FnObject::call_object(&super::channels, (tx, rx))
    }
    pub async fn call_mut(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
        let mut called = super::channels;
        crossmist::FnMutObject::call_object_mut(&mut called, (tx, rx))
    }
    pub async fn call_once(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
        crossmist::FnOnceObject::call_object_once(super::channels, (tx, rx))
    }
    pub async fn call_box(tx: crossmist::Sender<u32>, rx: crossmist::Receiver<u32>) -> Result<(), String> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::channels), (tx, rx))
    }
}
pub mod w_gives_channel {
    use super::*;
    pub fn spawn(n: u32) -> IoResult<crossmist::Child<crossmist::Sender<u32>>> {
        super::gives_channel.spawn(n)
    }
    pub fn run(n: u32) -> IoResult<crossmist::Sender<u32>> {
        super::gives_channel.run(n)
    }
    pub async fn spawn_tokio(n: u32) -> IoResult<crossmist::tokio::Child<crossmist::Sender<u32>>> {
        super::gives_channel.spawn_tokio(n).await
    }
    pub async fn run_tokio(n: u32) -> IoResult<crossmist::Sender<u32>> {
        super::gives_channel.run_tokio(n).await
    }
    pub async fn spawn_smol(n: u32) -> IoResult<crossmist::smol::Child<crossmist::Sender<u32>>> {
        super::gives_channel.spawn_smol(n).await
    }
    pub async fn run_smol(n: u32) -> IoResult<crossmist::Sender<u32>> {
        super::gives_channel.run_smol(n).await
    }
    pub async fn call(n: u32) -> crossmist::Sender<u32> {
        crossmist::FnObject::call_object(&super::gives_channel, (n,))
    }
    pub async fn call_mut(n: u32) -> crossmist::Sender<u32> {
        let mut called = super::gives_channel;
        crossmist::FnMutObject::call_object_mut(&mut called, (n,))
    }
    pub async fn call_once(n: u32) -> crossmist::Sender<u32> {
        crossmist::FnOnceObject::call_object_once(super::gives_channel, (n,))
    }
    pub async fn call_box(n: u32) -> crossmist::Sender<u32> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::gives_channel), (n,))
    }
}
pub mod w_nested_option {
    use super::*;
    pub fn spawn(n: u32) -> IoResult<crossmist::Child<Option<Option<u32>>>> {
        super::nested_option.spawn(n)
    }
    pub fn run(n: u32) -> IoResult<Option<Option<u32>>> {
        super::nested_option.run(n)
    }
    pub async fn spawn_tokio(n: u32) -> IoResult<crossmist::tokio::Child<Option<Option<u32>>>> {
        super::nested_option.spawn_tokio(n).await
    }
    pub async fn run_tokio(n: u32) -> IoResult<Option<Option<u32>>> {
        super::nested_option.run_tokio(n).await
    }
    pub async fn spawn_smol(n: u32) -> IoResult<crossmist::smol::Child<Option<Option<u32>>>> {
        super::nested_option.spawn_smol(n).await
    }
    pub async fn run_smol(n: u32) -> IoResult<Option<Option<u32>>> {
        super::nested_option.run_smol(n).await
    }
    pub async fn call(n: u32) -> Option<Option<u32>> {
        crossmist::FnObject::call_object(&super::nested_option, (n,))
    }
    pub async fn call_mut(n: u32) -> Option<Option<u32>> {
        let mut called = super::nested_option;
        crossmist::FnMutObject::call_object_mut(&mut called, (n,))
    }
    pub async fn call_once(n: u32) -> Option<Option<u32>> {
        crossmist::FnOnceObject::call_object_once(super::nested_option, (n,))
    }
    pub async fn call_box(n: u32) -> Option<Option<u32>> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::nested_option), (n,))
    }
}
pub mod w_names {
    use super::*;
    pub fn spawn(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<crossmist::Child<u32>> {
        super::names.spawn(args, entry, body, func, return_value)
    }
    pub fn run(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<u32> {
        super::names.run(args, entry, body, func, return_value)
    }
    pub async fn spawn_tokio(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<crossmist::tokio::Child<u32>> {
        super::names.spawn_tokio(args, entry, body, func, return_value).await
    }
    pub async fn run_tokio(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<u32> {
        super::names.run_tokio(args, entry, body, func, return_value).await
    }
    pub async fn spawn_smol(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<crossmist::smol::Child<u32>> {
        super::names.spawn_smol(args, entry, body, func, return_value).await
    }
    pub async fn run_smol(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> IoResult<u32> {
        super::names.run_smol(args, entry, body, func, return_value).await
    }
    pub async fn call(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
        crossmist::FnObject::call_object(&super::names, (args, entry, body, func, return_value))
    }
    pub async fn call_mut(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
        let mut called = super::names;
        crossmist::FnMutObject::call_object_mut(&mut called, (args, entry, body, func, return_value))
    }
    pub async fn call_once(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
        crossmist::FnOnceObject::call_object_once(super::names, (args, entry, body, func, return_value))
    }
    pub async fn call_box(args: u32, entry: u32, body: u32, func: u32, return_value: u32) -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::names), (args, entry, body, func, return_value))
    }
}
pub mod w_generic {
    use super::*;
    pub fn spawn<T: Object + 'static>(a: T, b: T) -> IoResult<crossmist::Child<T>> {
        super::generic.spawn(a, b)
    }
    pub fn run<T: Object + 'static>(a: T, b: T) -> IoResult<T> {
        super::generic.run(a, b)
    }
    pub async fn spawn_tokio<T: Object + 'static>(a: T, b: T) -> IoResult<crossmist::tokio::Child<T>> {
        super::generic.spawn_tokio(a, b).await
    }
    pub async fn run_tokio<T: Object + 'static>(a: T, b: T) -> IoResult<T> {
        super::generic.run_tokio(a, b).await
    }
    pub async fn spawn_smol<T: Object + 'static>(a: T, b: T) -> IoResult<crossmist::smol::Child<T>> {
        super::generic.spawn_smol(a, b).await
    }
    pub async fn run_smol<T: Object + 'static>(a: T, b: T) -> IoResult<T> {
        super::generic.run_smol(a, b).await
    }
}
pub mod w_generic_two {
    use super::*;
    pub fn spawn<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<crossmist::Child<U>> {
        super::generic_two.spawn(a, b, c)
    }
    pub fn run<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<U> {
        super::generic_two.run(a, b, c)
    }
    pub async fn spawn_tokio<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<crossmist::tokio::Child<U>> {
        super::generic_two.spawn_tokio(a, b, c).await
    }
    pub async fn run_tokio<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<U> {
        super::generic_two.run_tokio(a, b, c).await
    }
    pub async fn spawn_smol<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<crossmist::smol::Child<U>> {
        super::generic_two.spawn_smol(a, b, c).await
    }
    pub async fn run_smol<T: Object + 'static, U: Object + 'static>(a: U, b: T, c: U) -> IoResult<U> {
        super::generic_two.run_smol(a, b, c).await
    }
}
pub mod w_tokio_none {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<()>> {
        super::tokio_none.spawn()
    }
    pub fn run() -> IoResult<()> {
        super::tokio_none.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<()>> {
        super::tokio_none.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<()> {
        super::tokio_none.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<()>> {
        super::tokio_none.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<()> {
        super::tokio_none.run_smol().await
    }
    pub async fn call() -> () {
        crossmist::FnObject::call_object(&super::tokio_none, ()).await
    }
    pub async fn call_mut() -> () {
        let mut called = super::tokio_none;
        crossmist::FnMutObject::call_object_mut(&mut called, ()).await
    }
    pub async fn call_once() -> () {
        crossmist::FnOnceObject::call_object_once(super::tokio_none, ()).await
    }
    pub async fn call_box() -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_none), ()).await
    }
}
pub mod w_tokio_value {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<u32>> {
        super::tokio_value.spawn()
    }
    pub fn run() -> IoResult<u32> {
        super::tokio_value.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<u32>> {
        super::tokio_value.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<u32> {
        super::tokio_value.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<u32>> {
        super::tokio_value.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<u32> {
        super::tokio_value.run_smol().await
    }
    pub async fn call() -> u32 {
        crossmist::FnObject::call_object(&super::tokio_value, ()).await
    }
    pub async fn call_mut() -> u32 {
        let mut called = super::tokio_value;
        crossmist::FnMutObject::call_object_mut(&mut called, ()).await
    }
    pub async fn call_once() -> u32 {
        crossmist::FnOnceObject::call_object_once(super::tokio_value, ()).await
    }
    pub async fn call_box() -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_value), ()).await
    }
}
pub mod w_tokio_two {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<(String, String)>> {
        super::tokio_two.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<(String, String)> {
        super::tokio_two.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<(String, String)>> {
        super::tokio_two.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<(String, String)> {
        super::tokio_two.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<(String, String)>> {
        super::tokio_two.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<(String, String)> {
        super::tokio_two.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> (String, String) {
        crossmist::FnObject::call_object(&super::tokio_two, (a, b)).await
    }
    pub async fn call_mut(a: String, b: String) -> (String, String) {
        let mut called = super::tokio_two;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b)).await
    }
    pub async fn call_once(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_once(super::tokio_two, (a, b)).await
    }
    pub async fn call_box(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_two), (a, b)).await
    }
}
pub mod w_tokio_unit {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<()>> {
        super::tokio_unit.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<()> {
        super::tokio_unit.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<()>> {
        super::tokio_unit.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<()> {
        super::tokio_unit.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<()>> {
        super::tokio_unit.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<()> {
        super::tokio_unit.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> () {
        crossmist::FnObject::call_object(&super::tokio_unit, (a, b)).await
    }
    pub async fn call_mut(a: String, b: String) -> () {
        let mut called = super::tokio_unit;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b)).await
    }
    pub async fn call_once(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_once(super::tokio_unit, (a, b)).await
    }
    pub async fn call_box(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_unit), (a, b)).await
    }
}
pub mod w_tokio_current {
    use super::*;
    pub fn spawn(a: u32, b: u32, c: u32) -> IoResult<crossmist::Child<u32>> {
        super::tokio_current.spawn(a, b, c)
    }
    pub fn run(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::tokio_current.run(a, b, c)
    }
    pub async fn spawn_tokio(a: u32, b: u32, c: u32) -> IoResult<crossmist::tokio::Child<u32>> {
        super::tokio_current.spawn_tokio(a, b, c).await
    }
    pub async fn run_tokio(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::tokio_current.run_tokio(a, b, c).await
    }
    pub async fn spawn_smol(a: u32, b: u32, c: u32) -> IoResult<crossmist::smol::Child<u32>> {
        super::tokio_current.spawn_smol(a, b, c).await
    }
    pub async fn run_smol(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::tokio_current.run_smol(a, b, c).await
    }
    pub async fn call(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnObject::call_object(&super::tokio_current, (a, b, c)).await
    }
    pub async fn call_mut(a: u32, b: u32, c: u32) -> u32 {
        let mut called = super::tokio_current;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c)).await
    }
    pub async fn call_once(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_once(super::tokio_current, (a, b, c)).await
    }
    pub async fn call_box(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_current), (a, b, c)).await
    }
}
pub mod w_tokio_result {
    use super::*;
    pub fn spawn(a: u32) -> IoResult<crossmist::Child<Result<(), String>>> {
        super::tokio_result.spawn(a)
    }
    pub fn run(a: u32) -> IoResult<Result<(), String>> {
        super::tokio_result.run(a)
    }
    pub async fn spawn_tokio(a: u32) -> IoResult<crossmist::tokio::Child<Result<(), String>>> {
        super::tokio_result.spawn_tokio(a).await
    }
    pub async fn run_tokio(a: u32) -> IoResult<Result<(), String>> {
        super::tokio_result.run_tokio(a).await
    }
    pub async fn spawn_smol(a: u32) -> IoResult<crossmist::smol::Child<Result<(), String>>> {
        super::tokio_result.spawn_smol(a).await
    }
    pub async fn run_smol(a: u32) -> IoResult<Result<(), String>> {
        super::tokio_result.run_smol(a).await
    }
    pub async fn call(a: u32) -> Result<(), String> {
        crossmist::FnObject::call_object(&super::tokio_result, (a,)).await
    }
    pub async fn call_mut(a: u32) -> Result<(), String> {
        let mut called = super::tokio_result;
        crossmist::FnMutObject::call_object_mut(&mut called, (a,)).await
    }
    pub async fn call_once(a: u32) -> Result<(), String> {
        crossmist::FnOnceObject::call_object_once(super::tokio_result, (a,)).await
    }
    pub async fn call_box(a: u32) -> Result<(), String> {
        crossmist::FnOnceObject::call_object_box(Box::new(super::tokio_result), (a,)).await
    }
}
pub mod w_smol_none {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<()>> {
        super::smol_none.spawn()
    }
    pub fn run() -> IoResult<()> {
        super::smol_none.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<()>> {
        super::smol_none.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<()> {
        super::smol_none.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<()>> {
        super::smol_none.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<()> {
        super::smol_none.run_smol().await
    }
    pub async fn call() -> () {
        crossmist::FnObject::call_object(&super::smol_none, ()).await
    }
    pub async fn call_mut() -> () {
        let mut called = super::smol_none;
        crossmist::FnMutObject::call_object_mut(&mut called, ()).await
    }
    pub async fn call_once() -> () {
        crossmist::FnOnceObject::call_object_once(super::smol_none, ()).await
    }
    pub async fn call_box() -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::smol_none), ()).await
    }
}
pub mod w_smol_value {
    use super::*;
    pub fn spawn() -> IoResult<crossmist::Child<u32>> {
        super::smol_value.spawn()
    }
    pub fn run() -> IoResult<u32> {
        super::smol_value.run()
    }
    pub async fn spawn_tokio() -> IoResult<crossmist::tokio::Child<u32>> {
        super::smol_value.spawn_tokio().await
    }
    pub async fn run_tokio() -> IoResult<u32> {
        super::smol_value.run_tokio().await
    }
    pub async fn spawn_smol() -> IoResult<crossmist::smol::Child<u32>> {
        super::smol_value.spawn_smol().await
    }
    pub async fn run_smol() -> IoResult<u32> {
        super::smol_value.run_smol().await
    }
    pub async fn call() -> u32 {
        crossmist::FnObject::call_object(&super::smol_value, ()).await
    }
    pub async fn call_mut() -> u32 {
        let mut called = super::smol_value;
        crossmist::FnMutObject::call_object_mut(&mut called, ()).await
    }
    pub async fn call_once() -> u32 {
        crossmist::FnOnceObject::call_object_once(super::smol_value, ()).await
    }
    pub async fn call_box() -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::smol_value), ()).await
    }
}
pub mod w_smol_two {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<(String, String)>> {
        super::smol_two.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<(String, String)> {
        super::smol_two.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<(String, String)>> {
        super::smol_two.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<(String, String)> {
        super::smol_two.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<(String, String)>> {
        super::smol_two.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<(String, String)> {
        super::smol_two.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> (String, String) {
        crossmist::FnObject::call_object(&super::smol_two, (a, b)).await
    }
    pub async fn call_mut(a: String, b: String) -> (String, String) {
        let mut called = super::smol_two;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b)).await
    }
    pub async fn call_once(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_once(super::smol_two, (a, b)).await
    }
    pub async fn call_box(a: String, b: String) -> (String, String) {
        crossmist::FnOnceObject::call_object_box(Box::new(super::smol_two), (a, b)).await
    }
}
pub mod w_smol_three {
    use super::*;
    pub fn spawn(a: u32, b: u32, c: u32) -> IoResult<crossmist::Child<u32>> {
        super::smol_three.spawn(a, b, c)
    }
    pub fn run(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::smol_three.run(a, b, c)
    }
    pub async fn spawn_tokio(a: u32, b: u32, c: u32) -> IoResult<crossmist::tokio::Child<u32>> {
        super::smol_three.spawn_tokio(a, b, c).await
    }
    pub async fn run_tokio(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::smol_three.run_tokio(a, b, c).await
    }
    pub async fn spawn_smol(a: u32, b: u32, c: u32) -> IoResult<crossmist::smol::Child<u32>> {
        super::smol_three.spawn_smol(a, b, c).await
    }
    pub async fn run_smol(a: u32, b: u32, c: u32) -> IoResult<u32> {
        super::smol_three.run_smol(a, b, c).await
    }
    pub async fn call(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnObject::call_object(&super::smol_three, (a, b, c)).await
    }
    pub async fn call_mut(a: u32, b: u32, c: u32) -> u32 {
        let mut called = super::smol_three;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b, c)).await
    }
    pub async fn call_once(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_once(super::smol_three, (a, b, c)).await
    }
    pub async fn call_box(a: u32, b: u32, c: u32) -> u32 {
        crossmist::FnOnceObject::call_object_box(Box::new(super::smol_three), (a, b, c)).await
    }
}
pub mod w_smol_unit {
    use super::*;
    pub fn spawn(a: String, b: String) -> IoResult<crossmist::Child<()>> {
        super::smol_unit.spawn(a, b)
    }
    pub fn run(a: String, b: String) -> IoResult<()> {
        super::smol_unit.run(a, b)
    }
    pub async fn spawn_tokio(a: String, b: String) -> IoResult<crossmist::tokio::Child<()>> {
        super::smol_unit.spawn_tokio(a, b).await
    }
    pub async fn run_tokio(a: String, b: String) -> IoResult<()> {
        super::smol_unit.run_tokio(a, b).await
    }
    pub async fn spawn_smol(a: String, b: String) -> IoResult<crossmist::smol::Child<()>> {
        super::smol_unit.spawn_smol(a, b).await
    }
    pub async fn run_smol(a: String, b: String) -> IoResult<()> {
        super::smol_unit.run_smol(a, b).await
    }
    pub async fn call(a: String, b: String) -> () {
        crossmist::FnObject::call_object(&super::smol_unit, (a, b)).await
    }
    pub async fn call_mut(a: String, b: String) -> () {
        let mut called = super::smol_unit;
        crossmist::FnMutObject::call_object_mut(&mut called, (a, b)).await
    }
    pub async fn call_once(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_once(super::smol_unit, (a, b)).await
    }
    pub async fn call_box(a: String, b: String) -> () {
        crossmist::FnOnceObject::call_object_box(Box::new(super::smol_unit), (a, b)).await
    }
}

/// Can be called, but not started: it takes references.
#[func]
pub fn refs(a: &u32, b: &mut u32, c: u32) -> u32 {
    c
}
pub fn outer() {
    #[func]
    fn inner(a: u32, b: u32) -> u32 {
        a
    }
    let _ = inner.spawn(1, 2);
}
pub struct Holder;
impl Holder {
    pub fn method(&self) {
        #[func]
        fn inner(a: String, b: u32) -> u32 {
            b
        }
        let _ = inner.spawn("".to_string(), 2);
    }
}
