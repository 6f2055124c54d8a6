//! Drivers that explore the zserio runtime through its public API.
pub mod arr;
pub mod prim;
pub mod drv_scalar;
pub mod drv_array;
pub mod drv_io;
pub mod alloc;

use mccore::Runner;

/// Adds the runtime tasks of a property.
pub fn tasks(r: &mut Runner) {
    match r.prop.clone().as_str() {
        "C01" => drv_scalar::c01(r),
        "C02" => drv_scalar::c02(r),
        "C03" => drv_scalar::c03(r),
        "C04" => drv_array::c04(r),
        "C05" => drv_array::c05(r),
        "C06" => drv_array::c06(r),
        "C07" => drv_array::c07(r),
        "C08" => alloc::c08(r),
        "C09" => drv_array::c09(r),
        "C10" => drv_io::c10(r),
        "C11" => drv_array::c11(r),
        "C16" => drv_scalar::c16(r),
        _ => {}
    }
}
