From 1401c0b9b9aff829c5cdc483b2f88ac309422c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:21 +0000
Subject: [PATCH 01/17] fix: reject payment id text that does not stand for
 exactly eight bytes

Text with a dash and more than twelve other characters made the parser panic.
Text that decodes to fewer than eight bytes was accepted and read as some other id.
---
 common/src/payment_id.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/src/payment_id.rs b/common/src/payment_id.rs
index 471a430..ce293a9 100644
--- a/common/src/payment_id.rs
+++ b/common/src/payment_id.rs
@@ -100,13 +100,18 @@ impl core::str::FromStr for PaymentId {
 		let mut input = s;
 		if let Some((p1, p2)) = s.split_once('-') {
 			let len_without_sep = p1.len() + p2.len();
-			debug_assert!(len_without_sep <= 12);
+			if len_without_sep > tmp.len() {
+				return Err(());
+			}
 			tmp[..p1.len()].copy_from_slice(p1.as_bytes());
 			tmp[p1.len()..len_without_sep].copy_from_slice(p2.as_bytes());
 			input = tmp[..len_without_sep].as_ascii().ok_or(())?.as_str();
 		};
 		let mut out = [0u8; 8];
-		let _ = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		let n = bs58::decode(input).onto(&mut out[..]).map_err(|_| ())?;
+		if n != out.len() {
+			return Err(());
+		}
 		Ok(u64::from_le_bytes(out).into())
 	}
 }
-- 
2.43.0


From c9dd239f74c46d4394b1b44fb1778946ee7d532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:21 +0000
Subject: [PATCH 02/17] fix: do not panic on a local asset location with an
 index over 32 bits

Such a location names no asset here, so the conversion yields none.
---
 common/src/multilocation_asset_id.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/common/src/multilocation_asset_id.rs b/common/src/multilocation_asset_id.rs
index f6ac03c..d22b12f 100644
--- a/common/src/multilocation_asset_id.rs
+++ b/common/src/multilocation_asset_id.rs
@@ -106,11 +106,9 @@ pub mod runtime {
 						index: (*index).try_into().ok()?,
 					}))
 				}
-				(0, [PalletInstance(13), GeneralIndex(index)]) => Some(FungibleAssetLocation::Here(
-					(*index)
-						.try_into()
-						.expect("as it is here, we the types will match; qed"),
-				)),
+				(0, [PalletInstance(13), GeneralIndex(index)]) => {
+					Some(FungibleAssetLocation::Here((*index).try_into().ok()?))
+				}
 				_ => None,
 			}
 		}
-- 
2.43.0


From 113b5a9562d2d405703153d8ef6230ccbdb1d82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:34 +0000
Subject: [PATCH 03/17] fix: accept_and_pay only settles open payment requests

Any payment of the caller could be accepted, whatever its state. A payment
already released could be paid again, and a payment in escrow would be marked
finished while its funds stayed on hold forever.
---
 pallets/payments/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 622130d..36c364d 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -361,6 +361,11 @@ pub mod pallet {
 
 			Payment::<T>::try_mutate(&sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 				let payment = maybe_payment.as_mut().map_err(|_| Error::<T>::InvalidPayment)?;
+				// only a request that is still open can be accepted
+				ensure!(
+					payment.state == PaymentState::PaymentRequested,
+					Error::<T>::InvalidAction
+				);
 				const IS_DISPUTE: bool = false;
 
 				// Release sender fees recipients
-- 
2.43.0


From 7197542c1a2c4857b1a812ce460d81e61fe68614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:34 +0000
Subject: [PATCH 04/17] fix: refuse a new payment whose id belongs to another
 sender's payment

Payments are stored by sender and id but their parties by id alone. When the id
generator repeats an id for a different sender, the parties of the first payment
were overwritten, so it could not be cancelled, disputed or resolved any more.
---
 pallets/payments/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 36c364d..767c03f 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -529,6 +529,10 @@ impl<T: Config> Pallet<T> {
 		remark: Option<&[u8]>,
 	) -> Result<(T::PaymentId, PaymentDetail<T>), DispatchError> {
 		let payment_id = T::PaymentId::next(sender, &beneficiary).ok_or(Error::<T>::NoPaymentIdAvailable)?;
+		// an id in use by another sender cannot be taken over, its parties would be lost
+		if let Ok((current_sender, _)) = PaymentParties::<T>::get(payment_id) {
+			ensure!(current_sender == *sender, Error::<T>::PaymentAlreadyInProcess);
+		}
 		Payment::<T>::try_mutate(sender, payment_id, |maybe_payment| -> Result<_, DispatchError> {
 			if let Ok(payment) = maybe_payment {
 				ensure!(
-- 
2.43.0


From 7f02860a17357766106893336b3a4ead90e9a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:43:34 +0000
Subject: [PATCH 05/17] fix: keep mandatory and optional fees of the same
 recipient apart

Fees were merged per recipient and took the dispute flag of the first one. In a
dispute a recipient of both kinds was paid either nothing or also the optional
part.
---
 pallets/payments/src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/payments/src/types.rs b/pallets/payments/src/types.rs
index ed76fc1..aac3dbe 100644
--- a/pallets/payments/src/types.rs
+++ b/pallets/payments/src/types.rs
@@ -117,7 +117,7 @@ impl<T: pallet::Config> Fees<T> {
 	}
 
 	fn get_summary(fees: &FeeDetails<T>, is_dispute: bool) -> Result<FeesSummaryForRole<T>, DispatchError> {
-		let mut fees_per_account: BTreeMap<AccountIdOf<T>, Fee<T>> = BTreeMap::new();
+		let mut fees_per_account: BTreeMap<(AccountIdOf<T>, ChargableOnDisputes), Fee<T>> = BTreeMap::new();
 		let mut total_to_discount: BalanceOf<T> = Zero::zero();
 		let mut total_to_return: BalanceOf<T> = Zero::zero();
 
@@ -133,7 +133,7 @@ impl<T: pallet::Config> Fees<T> {
 			}
 
 			let current_fee = fees_per_account
-				.entry(account.clone())
+				.entry((account.clone(), *charge_dispute))
 				.or_insert_with(|| (account.clone(), Zero::zero(), *charge_dispute));
 			let (_, current_balance, _) = current_fee;
 			*current_balance = current_balance.saturating_add(*fee);
-- 
2.43.0


From 792781a875637d1343f354f853d5f9feaa94a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 06/17] fix: let communities set only their own decision method

The community the origin speaks for was ignored, so the admin of any
community could change how every other community takes decisions.
---
 pallets/communities/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 2e92945..75a4777 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -490,7 +490,8 @@ pub mod pallet {
 			community_id: T::CommunityId,
 			decision_method: DecisionMethodFor<T>,
 		) -> DispatchResult {
-			T::AdminOrigin::ensure_origin(origin)?;
+			let origin_community_id = T::AdminOrigin::ensure_origin(origin)?;
+			ensure!(origin_community_id == community_id, DispatchError::BadOrigin);
 			if let DecisionMethod::CommunityAsset(ref asset, min_vote) = decision_method {
 				// best effort attemt to create the asset if it doesn't exist
 				let _ = <T::Assets as fungibles::Create<T::AccountId>>::create(
-- 
2.43.0


From eb6a9423af4c14177cfcecb06dcd93592fac1532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 07/17] fix: refuse to hand a community to the admin of another
 one

An origin administers at most one community. Setting one that already
administers a community silently took that community away from its admin.
---
 pallets/communities/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 75a4777..330bdf8 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -400,6 +400,10 @@ pub mod pallet {
 				CommunityIdFor::<T>::get(origin.clone().caller()) == Some(community_id),
 				DispatchError::BadOrigin
 			);
+			ensure!(
+				CommunityIdFor::<T>::get(&admin_origin).map_or(true, |id| id == community_id),
+				Error::<T>::AlreadyAdmin
+			);
 
 			CommunityIdFor::<T>::remove(origin.caller());
 			CommunityIdFor::<T>::insert(admin_origin.clone(), community_id);
-- 
2.43.0


From 46a97599333dce9c2aa01ab7663cb897bc2beb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 08/17] fix: remove only memberships that belong to the named
 member

Any membership of the community was released as long as the named account
was a member through some other membership.
---
 pallets/communities/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index 330bdf8..b5989d2 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -451,7 +451,10 @@ pub mod pallet {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 			let who = T::Lookup::lookup(who)?;
 
-			ensure!(T::MemberMgmt::is_member_of(&community_id, &who), Error::<T>::NotAMember);
+			ensure!(
+				T::MemberMgmt::check_membership(&who, &membership_id) == Some(community_id),
+				Error::<T>::NotAMember
+			);
 
 			T::MemberMgmt::release(&community_id, &membership_id)?;
 
-- 
2.43.0


From 282a2d74f2a4a7dcde5b1e27a5843a85ba3c2493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 09/17] fix: report the new rank when a member is demoted

The event carried the rank from before the demotion.
---
 pallets/communities/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pallets/communities/src/lib.rs b/pallets/communities/src/lib.rs
index b5989d2..27d678f 100644
--- a/pallets/communities/src/lib.rs
+++ b/pallets/communities/src/lib.rs
@@ -481,8 +481,10 @@ pub mod pallet {
 		pub fn demote(origin: OriginFor<T>, membership_id: MembershipIdOf<T>) -> DispatchResult {
 			let community_id = T::MemberMgmtOrigin::ensure_origin(origin)?;
 
-			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id).ok_or(Error::<T>::NotAMember)?;
-			T::MemberMgmt::set_rank(&community_id, &membership_id, rank.demote_by(ONE))?;
+			let rank = T::MemberMgmt::rank_of(&community_id, &membership_id)
+				.ok_or(Error::<T>::NotAMember)?
+				.demote_by(ONE);
+			T::MemberMgmt::set_rank(&community_id, &membership_id, rank)?;
 
 			Self::deposit_event(Event::MembershipRankUpdated { membership_id, rank });
 			Ok(())
-- 
2.43.0


From bc8ff201ced3858bf4cfd727b52fb5d7cdc445a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 10/17] fix: keep the approval of large tallies from
 overflowing

Adding ayes and nays as u32 overflows once both are large, which reports a
wrong approval or panics.
---
 pallets/communities/src/impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/communities/src/impls.rs b/pallets/communities/src/impls.rs
index eea66f1..e7997f0 100644
--- a/pallets/communities/src/impls.rs
+++ b/pallets/communities/src/impls.rs
@@ -20,7 +20,8 @@ impl<T: Config> VoteTally<VoteWeight, CommunityIdOf<T>> for Tally<T> {
 	}
 
 	fn approval(&self, _cid: CommunityIdOf<T>) -> sp_runtime::Perbill {
-		Perbill::from_rational(self.ayes, 1.max(self.ayes + self.nays))
+		let (ayes, nays) = (u64::from(self.ayes), u64::from(self.nays));
+		Perbill::from_rational(ayes, 1.max(ayes + nays))
 	}
 
 	#[cfg(feature = "runtime-benchmarks")]
-- 
2.43.0


From 3aae956492f2c85090884b6a44f6b23f3cd1b777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:19:56 +0000
Subject: [PATCH 11/17] fix: count the membership with the last possible id

Creating memberships up to the end of the id range announced one fewer than
were created.
---
 pallets/communities-manager/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/communities-manager/src/lib.rs b/pallets/communities-manager/src/lib.rs
index 7f6e394..f3ac153 100644
--- a/pallets/communities-manager/src/lib.rs
+++ b/pallets/communities-manager/src/lib.rs
@@ -218,9 +218,9 @@ pub mod pallet {
 					Some(price),
 					None,
 				)?;
+				minted += 1;
 				if let Some(next_id) = id.increment() {
 					id = next_id;
-					minted += 1;
 				} else {
 					break;
 				}
-- 
2.43.0


From 1cf87cf4d6773be398ee6dc6bbade120c917595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:10 +0000
Subject: [PATCH 12/17] fix: accept reserve deposits of a chain's assets only
 from that chain

The reserve filter for assets of the asset hub ignored who sent the message,
so any chain could claim to have reserved them and mint them here.
---
 runtime/kreivo/src/xcm_config.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config.rs b/runtime/kreivo/src/xcm_config.rs
index b2c2b44..0b26548 100644
--- a/runtime/kreivo/src/xcm_config.rs
+++ b/runtime/kreivo/src/xcm_config.rs
@@ -185,9 +185,9 @@ fn matches_prefix(prefix: &Location, loc: &Location) -> bool {
 }
 pub struct ReserveAssetsFrom<T>(PhantomData<T>);
 impl<Prefix: Get<Location>> ContainsPair<Asset, Location> for ReserveAssetsFrom<Prefix> {
-	fn contains(asset: &Asset, _origin: &Location) -> bool {
-		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), _origin);
-		matches_prefix(&Prefix::get(), &asset.id.0)
+	fn contains(asset: &Asset, origin: &Location) -> bool {
+		log::trace!(target: "xcm::AssetsFrom", "prefix: {:?}, origin: {:?}", Prefix::get(), origin);
+		&Prefix::get() == origin && matches_prefix(&Prefix::get(), &asset.id.0)
 	}
 }
 pub struct ReserveForeignAssetsFrom<P, R>(PhantomData<(P, R)>);
-- 
2.43.0


From d17bb7035d5c4fcca5d79cf0c1eb6bf4cbdb1ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:10 +0000
Subject: [PATCH 13/17] fix: send messages as a community only from community
 accounts

The account of any other pallet was taken for the community whose number its
sub-account decodes to, and could send messages in its name.
---
 runtime/kreivo/src/xcm_config/communities.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index 7410bc8..b3fed26 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -52,9 +52,12 @@ where
 		let Some(account_id) = o.clone().into_signer() else {
 			return Err(o.clone());
 		};
-		let Some((_, community_id)) = PalletId::try_from_sub_account(&account_id) else {
+		let Some((pallet_id, community_id)) = PalletId::try_from_sub_account(&account_id) else {
 			return Err(o.clone());
 		};
+		if pallet_id != T::PalletId::get() {
+			return Err(o.clone());
+		}
 		let origin = pallet_communities::Origin::<T>::new(community_id);
 		let j = Junction::try_from(origin).map_err(|_| o)?;
 		Ok(j.into())
-- 
2.43.0


From fc9fc20b119f9e2c1489d24cfc17ada405915a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:10 +0000
Subject: [PATCH 14/17] fix: give plurality indices beyond the community ids no
 account

They were clamped to the largest community id, so messages for plurality bodies
that cannot exist acted on the account of that community.
---
 runtime/kreivo/src/xcm_config/communities.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/runtime/kreivo/src/xcm_config/communities.rs b/runtime/kreivo/src/xcm_config/communities.rs
index b3fed26..f1ca303 100644
--- a/runtime/kreivo/src/xcm_config/communities.rs
+++ b/runtime/kreivo/src/xcm_config/communities.rs
@@ -4,10 +4,7 @@ use crate::Communities;
 use core::marker::PhantomData;
 use frame_support::{traits::OriginTrait, PalletId};
 use pallet_communities::AccountIdOf;
-use sp_runtime::{
-	traits::{AccountIdConversion, TryConvert},
-	SaturatedConversion,
-};
+use sp_runtime::traits::{AccountIdConversion, TryConvert};
 use xcm::latest::{BodyId, Junction, Junction::Plurality, Location};
 use xcm_executor::traits::ConvertLocation;
 
@@ -20,7 +17,7 @@ impl ConvertLocation<AccountId> for PluralityConvertsToCommunityAccountId {
 				[Plurality {
 					id: BodyId::Index(id), ..
 				}],
-			) => Some(Communities::community_account(&(*id).saturated_into())),
+			) => Some(Communities::community_account(&(*id).try_into().ok()?)),
 			_ => None,
 		}
 	}
-- 
2.43.0


From d80598989e480e05df5ab1654c100329a47ea52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:10 +0000
Subject: [PATCH 15/17] fix: recognise only the accounts of communities as
 communities

The account of any other pallet, such as the treasury, was taken for the
community whose number its sub-account decodes to.
---
 runtime/kreivo/src/communities/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/communities/mod.rs b/runtime/kreivo/src/communities/mod.rs
index e393790..5419223 100644
--- a/runtime/kreivo/src/communities/mod.rs
+++ b/runtime/kreivo/src/communities/mod.rs
@@ -46,7 +46,10 @@ parameter_types! {
 
 morph_types! {
 	pub type AccountToCommunityId: TryMorph = |a: AccountId| -> Result<CommunityId, ()> {
-		PalletId::try_from_sub_account(&a).map(|(_, id)| id).ok_or(())
+		match PalletId::try_from_sub_account(&a) {
+			Some((pallet_id, id)) if pallet_id == CommunityPalletId::get() => Ok(id),
+			_ => Err(()),
+		}
 	};
 }
 type EnsureCommunityAccount = TryMapSuccess<EnsureSigned<AccountId>, AccountToCommunityId>;
-- 
2.43.0


From 79e0b77754387df9142867f3463182f5e8410293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:46:10 +0000
Subject: [PATCH 16/17] fix: refuse credentials for challenges of blocks that
 do not exist yet

The hash of the current or a future block reads as zeros, so a credential made
over zeros was accepted at any time by naming such a block.
---
 runtime/kreivo/src/configuration/system_support.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/kreivo/src/configuration/system_support.rs b/runtime/kreivo/src/configuration/system_support.rs
index 0f1081f..2f342ed 100644
--- a/runtime/kreivo/src/configuration/system_support.rs
+++ b/runtime/kreivo/src/configuration/system_support.rs
@@ -142,7 +142,8 @@ impl Challenger for UnincludedBlockHashChallenger {
 	}
 
 	fn check_challenge(cx: &Self::Context, challenge: &[u8]) -> Option<()> {
-		(*cx >= System::block_number().saturating_sub(3)).then_some(())?;
+		let now = System::block_number();
+		(*cx >= now.saturating_sub(3) && *cx < now).then_some(())?;
 		Self::generate(cx).eq(challenge).then_some(())
 	}
 }
-- 
2.43.0


From 1e2bdca51875d478e4204352269f1401a61ea22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:28:27 +0000
Subject: [PATCH 17/17] fix: drop the scheduled refund of a payment that is
 cancelled early

A beneficiary can cancel while a refund is pending. The scheduled
automatic refund stayed behind under the name of that payment. A later
payment with the same id could then not ask for a refund, or was
cancelled by the one left over.
---
 pallets/payments/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pallets/payments/src/lib.rs b/pallets/payments/src/lib.rs
index 767c03f..3206cbb 100644
--- a/pallets/payments/src/lib.rs
+++ b/pallets/payments/src/lib.rs
@@ -410,7 +410,12 @@ pub mod pallet {
 					Self::cancel_payment(&sender, payment)?;
 					Self::deposit_event(Event::PaymentCancelled { payment_id });
 				}
-				PaymentState::RefundRequested { cancel_block: _ } => {
+				PaymentState::RefundRequested { cancel_block } => {
+					// the automatic refund must not outlive the payment; once due it may be what calls, and gone
+					let unscheduled = T::Scheduler::cancel_named(("payment", payment_id).using_encoded(blake2_256));
+					if cancel_block > frame_system::Pallet::<T>::block_number() {
+						unscheduled?;
+					}
 					Self::cancel_payment(&sender, payment)?;
 					Self::deposit_event(Event::PaymentRefunded { payment_id });
 				}
-- 
2.43.0

