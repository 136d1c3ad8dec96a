/// Builds the aggregate call, event and origin types of a small runtime.
///
/// ```ignore
/// mini_runtime! {
///     pub runtime Test, account u64;
///     calls { System: frame_system::Call<Test> = 0, }
///     events { System: frame_system::Event<Test> = 0, }
///     origins { Communities: pallet_communities::Origin<Test> = 1, }
/// }
/// ```
#[macro_export]
macro_rules! mini_runtime {
	(
		pub runtime $rt:ident, account $acc:ty;
		calls { $( $c:ident : $cty:ty = $ci:literal ),* $(,)? }
		events { $( $e:ident : $ety:ty = $ei:literal ),* $(,)? }
		origins { $( $o:ident : $oty:ty = $oi:literal ),* $(,)? }
	) => {
		#[derive(Clone, Copy, PartialEq, Eq, Debug)]
		pub struct $rt;
		impl ::scale_info::TypeInfo for $rt {
			type Identity = Self;
			fn type_info() -> ::scale_info::Type { ::scale_info::Type::builder().path(::scale_info::Path::new("Rt", "rt")).composite(::scale_info::build::Fields::unit()) }
		}

		#[derive(Clone, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::scale_info::TypeInfo)]
		#[allow(clippy::large_enum_variant)]
		pub enum RuntimeCall { $( #[codec(index = $ci)] $c($cty) ),* }
		$(
			impl From<$cty> for RuntimeCall { fn from(c: $cty) -> Self { RuntimeCall::$c(c) } }
			impl ::frame_support::traits::IsSubType<$cty> for RuntimeCall {
				#[allow(unreachable_patterns)]
				fn is_sub_type(&self) -> Option<&$cty> { match self { RuntimeCall::$c(c) => Some(c), _ => None } }
			}
		)*
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { $( RuntimeCall::$c(c) => c.get_dispatch_info() ),* }
			}
		}
		impl ::frame_support::dispatch::CheckIfFeeless for RuntimeCall {
			type Origin = RuntimeOrigin;
			fn is_feeless(&self, o: &RuntimeOrigin) -> bool {
				match self { $( RuntimeCall::$c(c) => c.is_feeless(o) ),* }
			}
		}
		impl ::frame_support::traits::UnfilteredDispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			fn dispatch_bypass_filter(self, o: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { $( RuntimeCall::$c(c) => c.dispatch_bypass_filter(o) ),* }
			}
		}
		impl ::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = RuntimeCall;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, o: RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				if !::frame_support::traits::OriginTrait::filter_call(&o, &self) {
					return Err($crate::Error::<$rt>::CallFiltered.into());
				}
				::frame_support::traits::UnfilteredDispatchable::dispatch_bypass_filter(self, o)
			}
		}

		#[derive(Clone, PartialEq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode)]
		pub enum RuntimeEvent { $( #[codec(index = $ei)] $e($ety) ),* }
		$(
			impl From<$ety> for RuntimeEvent { fn from(c: $ety) -> Self { RuntimeEvent::$e(c) } }
			impl TryFrom<RuntimeEvent> for $ety {
				type Error = ();
				#[allow(unreachable_patterns)]
				fn try_from(e: RuntimeEvent) -> Result<Self, ()> { match e { RuntimeEvent::$e(c) => Ok(c), _ => Err(()) } }
			}
		)*

		#[derive(Clone, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::scale_info::TypeInfo, ::parity_scale_codec::MaxEncodedLen)]
		#[allow(non_camel_case_types)]
		pub enum OriginCaller { #[codec(index = 0)] system($crate::RawOrigin<$acc>), $( #[codec(index = $oi)] $o($oty) ),* }
		impl From<$crate::RawOrigin<$acc>> for OriginCaller { fn from(o: $crate::RawOrigin<$acc>) -> Self { OriginCaller::system(o) } }
		impl TryFrom<OriginCaller> for $crate::RawOrigin<$acc> {
			type Error = OriginCaller;
			#[allow(unreachable_patterns)]
			fn try_from(c: OriginCaller) -> Result<Self, OriginCaller> { match c { OriginCaller::system(o) => Ok(o), c => Err(c) } }
		}
		impl ::frame_support::traits::CallerTrait<$acc> for OriginCaller {
			#[allow(unreachable_patterns)]
			fn into_system(self) -> Option<$crate::RawOrigin<$acc>> { match self { OriginCaller::system(o) => Some(o), _ => None } }
			#[allow(unreachable_patterns)]
			fn as_system_ref(&self) -> Option<&$crate::RawOrigin<$acc>> { match self { OriginCaller::system(o) => Some(o), _ => None } }
		}
		#[derive(Clone)]
		pub struct RuntimeOrigin { pub caller: OriginCaller, filter: ::std::rc::Rc<dyn Fn(&RuntimeCall) -> bool> }
		impl ::core::fmt::Debug for RuntimeOrigin {
			fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result { write!(f, "{:?}", self.caller) }
		}
		#[allow(dead_code)]
		impl RuntimeOrigin {
			pub fn none() -> Self { $crate::RawOrigin::None.into() }
			pub fn root() -> Self { $crate::RawOrigin::Root.into() }
			pub fn signed(by: $acc) -> Self { $crate::RawOrigin::Signed(by).into() }
			pub fn caller(&self) -> &OriginCaller { &self.caller }
			pub fn into_caller(self) -> OriginCaller { self.caller }
			pub fn into_signer(self) -> Option<$acc> { ::frame_support::traits::OriginTrait::into_signer(self) }
			pub fn as_signed(&self) -> Option<&$acc> { ::frame_support::traits::OriginTrait::as_signed(self) }
			pub fn as_system_ref(&self) -> Option<&$crate::RawOrigin<$acc>> { ::frame_support::traits::OriginTrait::as_system_ref(self) }
		}
		impl PartialEq for RuntimeOrigin { fn eq(&self, o: &Self) -> bool { self.caller == o.caller } }
		impl ::frame_support::traits::OriginTrait for RuntimeOrigin {
			type Call = RuntimeCall;
			type PalletsOrigin = OriginCaller;
			type AccountId = $acc;
			fn add_filter(&mut self, filter: impl Fn(&RuntimeCall) -> bool + 'static) {
				let f = self.filter.clone();
				self.filter = ::std::rc::Rc::new(move |c| f(c) && filter(c));
			}
			fn reset_filter(&mut self) {
				self.filter = ::std::rc::Rc::new(|c| <<$rt as $crate::Config>::BaseCallFilter as ::frame_support::traits::Contains<RuntimeCall>>::contains(c));
			}
			fn set_caller(&mut self, c: OriginCaller) { self.caller = c }
			fn set_caller_from(&mut self, o: impl Into<Self>) { self.caller = o.into().caller }
			fn filter_call(&self, c: &RuntimeCall) -> bool {
				match &self.caller { OriginCaller::system($crate::RawOrigin::Root) => true, _ => (self.filter)(c) }
			}
			fn caller(&self) -> &OriginCaller { &self.caller }
			fn into_caller(self) -> OriginCaller { self.caller }
			fn none() -> Self { $crate::RawOrigin::None.into() }
			fn root() -> Self { $crate::RawOrigin::Root.into() }
			fn signed(by: $acc) -> Self { $crate::RawOrigin::Signed(by).into() }
		}
		impl From<OriginCaller> for RuntimeOrigin {
			fn from(caller: OriginCaller) -> Self {
				let mut o = RuntimeOrigin { caller, filter: ::std::rc::Rc::new(|_| true) };
				if !matches!(&o.caller, OriginCaller::system($crate::RawOrigin::Root)) { ::frame_support::traits::OriginTrait::reset_filter(&mut o); }
				o
			}
		}
		impl From<$crate::RawOrigin<$acc>> for RuntimeOrigin { fn from(x: $crate::RawOrigin<$acc>) -> Self { OriginCaller::system(x).into() } }
		impl From<Option<$acc>> for RuntimeOrigin { fn from(x: Option<$acc>) -> Self { $crate::RawOrigin::from(x).into() } }
		impl From<RuntimeOrigin> for Result<$crate::RawOrigin<$acc>, RuntimeOrigin> {
			#[allow(unreachable_patterns)]
			fn from(v: RuntimeOrigin) -> Self { match v.caller.clone() { OriginCaller::system(l) => Ok(l), _ => Err(v) } }
		}
		$(
			impl From<$oty> for OriginCaller { fn from(x: $oty) -> Self { OriginCaller::$o(x) } }
			impl TryFrom<OriginCaller> for $oty {
				type Error = OriginCaller;
				#[allow(unreachable_patterns)]
				fn try_from(c: OriginCaller) -> Result<Self, OriginCaller> { match c { OriginCaller::$o(o) => Ok(o), c => Err(c) } }
			}
			impl From<$oty> for RuntimeOrigin { fn from(x: $oty) -> Self { OriginCaller::$o(x).into() } }
			impl From<RuntimeOrigin> for Result<$oty, RuntimeOrigin> {
				#[allow(unreachable_patterns)]
				fn from(v: RuntimeOrigin) -> Self { match v.caller.clone() { OriginCaller::$o(l) => Ok(l), _ => Err(v) } }
			}
		)*
	};
}
