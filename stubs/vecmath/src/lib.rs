//! vecmath 1.0 over Sym (same definitions as the crate)
use symrt::{lit, Sym};
pub type Vector3<T> = [T; 3];
pub fn vec3_sub(a: Vector3<Sym>, b: Vector3<Sym>) -> Vector3<Sym> {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn vec3_add(a: Vector3<Sym>, b: Vector3<Sym>) -> Vector3<Sym> {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn vec3_dot(a: Vector3<Sym>, b: Vector3<Sym>) -> Sym {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn vec3_cross(a: Vector3<Sym>, b: Vector3<Sym>) -> Vector3<Sym> {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn vec3_square_len(a: Vector3<Sym>) -> Sym {
    vec3_dot(a, a)
}
pub fn vec3_len(a: Vector3<Sym>) -> Sym {
    vec3_square_len(a).sqrt()
}
pub fn vec3_scale(a: Vector3<Sym>, k: Sym) -> Vector3<Sym> {
    [a[0] * k, a[1] * k, a[2] * k]
}
pub fn vec3_inv_len(a: Vector3<Sym>) -> Sym {
    lit(1.) / vec3_len(a)
}
pub fn vec3_normalized(a: Vector3<Sym>) -> Vector3<Sym> {
    vec3_scale(a, vec3_inv_len(a))
}
