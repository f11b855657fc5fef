use std::ops::{Deref, DerefMut};

use crate::{ffi, EvmcVm, SteppableEvmcVm};

/// An instance behind the C interface, followed by the VM.
#[repr(C)]
pub struct EvmcContainer<T: EvmcVm> {
    instance: ffi::evmc_vm,
    vm: T,
}

impl<T: EvmcVm> EvmcContainer<T> {
    pub fn new(instance: ffi::evmc_vm) -> Box<Self> {
        Box::new(Self { instance, vm: T::init() })
    }
    /// # Safety
    /// The pointer has to be given back to `from_ffi_pointer`.
    pub unsafe fn into_ffi_pointer(boxed: Box<Self>) -> *mut ffi::evmc_vm {
        Box::into_raw(boxed) as *mut ffi::evmc_vm
    }
    /// # Safety
    /// `instance` has to come from `into_ffi_pointer`.
    pub unsafe fn from_ffi_pointer(instance: *mut ffi::evmc_vm) -> Box<Self> {
        assert!(!instance.is_null(), "from_ffi_pointer received NULL");
        Box::from_raw(instance as *mut Self)
    }
    pub fn instance(&self) -> &ffi::evmc_vm {
        &self.instance
    }
}
impl<T: EvmcVm> Deref for EvmcContainer<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.vm
    }
}
impl<T: EvmcVm> DerefMut for EvmcContainer<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.vm
    }
}

#[repr(C)]
pub struct SteppableEvmcContainer<T: EvmcVm + SteppableEvmcVm> {
    instance: ffi::evmc_vm_steppable,
    vm: T,
}

impl<T: EvmcVm + SteppableEvmcVm> SteppableEvmcContainer<T> {
    pub fn new(instance: ffi::evmc_vm_steppable) -> Box<Self> {
        Box::new(Self { instance, vm: T::init() })
    }
    /// # Safety
    /// The pointer has to be given back to `from_ffi_pointer`.
    pub unsafe fn into_ffi_pointer(boxed: Box<Self>) -> *mut ffi::evmc_vm_steppable {
        Box::into_raw(boxed) as *mut ffi::evmc_vm_steppable
    }
    /// # Safety
    /// `instance` has to come from `into_ffi_pointer`.
    pub unsafe fn from_ffi_pointer(instance: *mut ffi::evmc_vm_steppable) -> Box<Self> {
        assert!(!instance.is_null(), "from_ffi_pointer received NULL");
        Box::from_raw(instance as *mut Self)
    }
}
impl<T: EvmcVm + SteppableEvmcVm> Drop for SteppableEvmcContainer<T> {
    fn drop(&mut self) {
        let vm = self.instance.vm;
        if !vm.is_null() {
            // SAFETY: the VM was created together with this instance.
            if let Some(destroy) = unsafe { (*vm).destroy } {
                destroy(vm);
            }
        }
    }
}
impl<T: EvmcVm + SteppableEvmcVm> Deref for SteppableEvmcContainer<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.vm
    }
}
impl<T: EvmcVm + SteppableEvmcVm> DerefMut for SteppableEvmcContainer<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.vm
    }
}
