//! Who may do what: the callers each privileged call of the chain admits, and as whom.
use crate::rt::*;
use fc_traits_memberships::Inspect as _;
use frame_support::traits::PalletInfo as _;
use pallet_referenda::TracksInfo;
use sp_runtime::{traits::Convert, MultiAddress};
use std::collections::BTreeSet;

const P: &str = "C26";
type Nfts = pallet_nfts::Instance2;
type KReferenda = pallet_referenda::Instance1;
type CReferenda = pallet_referenda::Instance2;
type Collective = pallet_ranked_collective::Instance1;
type Tracks = pallet_referenda_tracks::Instance2;

/// What should come of a caller.
enum Want {
	No,
	Yes,
	/// admitted, as this account
	As(AccountId),
	/// admitted as this account or refused
	Perhaps(AccountId),
}
use Want::*;
fn root(w: &Who) -> Want {
	if *w == Who::Root {
		Yes
	} else {
		No
	}
}
fn root_as_treasury(w: &Who) -> Want {
	if *w == Who::Root {
		As(treasury())
	} else {
		No
	}
}
fn never(_: &Who) -> Want {
	No
}
/// The account a successful check names, if it names any.
fn named<T: 'static>(x: T) -> Option<AccountId> {
	(&x as &dyn std::any::Any).downcast_ref::<AccountId>().cloned()
}
fn judge(r: &mut Report, what: &str, w: &Who, got: Option<Option<AccountId>>, want: Want) {
	let ok = match (&got, &want) {
		(None, No) | (None, Perhaps(_)) => true,
		(Some(_), Yes) => true,
		(Some(Some(a)), As(b) | Perhaps(b)) => a == b,
		_ => false,
	};
	r.check(P, ok, || {
		let expected = match &want {
			No => "being refused".to_string(),
			Yes => "being admitted".into(),
			As(a) => format!("being admitted as {a:?}"),
			Perhaps(a) => format!("being refused or admitted as {a:?}"),
		};
		format!("{w:?} asks to {what}: {got:?} instead of {expected}")
	});
	r.saw(P, (what.to_string(), w.kind(), got.is_some()));
	r.count(if got.is_some() { "admitted" } else { "refused" });
	r.log(|| format!("{w:?} asks to {what}: {}", if got.is_some() { "admitted" } else { "refused" }));
}
macro_rules! rows {
	($r:expr, $w:expr; $($what:literal: $t:ty => $want:expr;)*) => { $(
		let o = origin($w);
		let Some(got) = no_panic($r, P, $what, || <$t as EnsureOrigin<RuntimeOrigin>>::try_origin(o).ok()) else { return };
		judge($r, $what, $w, got.map(named), $want($w));
	)* }
}
macro_rules! rows_with {
	($r:expr, $w:expr; $($what:literal: $t:ty, $arg:expr => $want:expr;)*) => { $(
		let o = origin($w);
		let Some(got) = no_panic($r, P, $what, || <$t as EnsureOriginWithArg<RuntimeOrigin, _>>::try_origin(o, $arg).ok()) else { return };
		judge($r, $what, $w, got.map(named), $want($w));
	)* }
}
fn set_member(c: u16, i: u32, who: &AccountId) {
	pallet_nfts::Pallet::<Runtime, Nfts>::set_item(c, i, Some(pallet_nfts::Item { owner: who.clone(), price: None, buyer: None, rank: 0 }));
}
pub fn history(s: &mut Src, r: &mut Report) {
	let units = kreivo_runtime::constants::currency::UNITS;
	let ed = <Runtime as pallet_balances::Config>::ExistentialDeposit::get();
	System::set_block_number(5);
	System::set_extrinsic_index(1);
	// founding communities
	let mut founded: Vec<(u16, AccountId)> = vec![];
	let mut members: Vec<(u16, AccountId)> = vec![];
	for _ in 0..1 + s.below(4) {
		let id = some_id(s);
		let by = if s.bool() { Who::Signed(somebody(s)) } else { someone(s) };
		let rich = s.bool();
		if let Who::Signed(a) = &by {
			if rich {
				give_native(a, units + ed);
			}
		}
		let admin = if s.bool() { ordinary(200u8.wrapping_add(founded.len() as u8)) } else { somebody(s) };
		let call: RuntimeCall = pallet_communities_manager::Call::<Runtime>::register {
			community_id: id,
			name: b"community".to_vec().try_into().expect("short"),
			first_admin: MultiAddress::Id(admin.clone()),
			maybe_decision_method: None,
			maybe_track_info: None,
		}
		.into();
		let before = books();
		let ranked = |c: u16| {
			use frame_support::traits::RankedMembers;
			<pallet_ranked_collective::Pallet<Runtime, Collective> as RankedMembers>::rank_of(&community(c))
		};
		rehearse(r, || call.clone().dispatch(origin(&by)));
		let Some(got) = no_panic(r, P, "register", || call.dispatch(origin(&by))) else { return };
		let now = books();
		let taken = founded.iter().any(|f| f.0 == id || f.1 == admin);
		match &got {
			Ok(_) => {
				let mut want = before.clone();
				let who = match &by {
					Who::Root => None,
					Who::Signed(a) => Some(a.clone()),
					_ => {
						r.fail(P, format!("{by:?} founded community {id}"));
						return;
					}
				};
				if let Some(a) = who {
					let paid = want.entry((vec![], a)).or_default();
					paid.0 = paid.0.wrapping_sub(units / 2);
					want.entry((vec![], treasury())).or_default().0 += units / 2;
				}
				want.retain(|_, v| *v != (0, 0));
				r.check(P, now == want, || format!("{by:?} founded community {id}: {before:?} became {now:?}"));
				let tracks = pallet_referenda_tracks::Pallet::<Runtime, Tracks>::table();
				let mine: Vec<_> = tracks.iter().filter(|t| t.0 == id).collect();
				r.check(P, mine.len() == 1 && mine[0].1 .1 == origin(&Who::Voice(id, 0)).caller, || format!("community {id} decides as {:?}", mine.iter().map(|m| m.1 .1.clone()).collect::<Vec<_>>()));
				let c = pallet_nfts::Pallet::<Runtime, Nfts>::collection(id);
				r.check(P, c.as_ref().map_or(false, |c| c.owner == community(id)), || format!("the memberships of community {id} are {c:?}"));
				r.check(P, ranked(id) == Some(0), || format!("community {id} has rank {:?} in the collective", ranked(id)));
				founded.push((id, admin));
				r.count("founded");
			}
			Err(e) => {
				r.check(P, now == before, || format!("{by:?} did not found community {id} but {before:?} became {now:?}"));
				let able = match &by {
					Who::Root => true,
					Who::Signed(_) => rich,
					_ => false,
				};
				r.check(P, !able || taken, || format!("{by:?} cannot found community {id} with {admin:?}: {e:?}"));
				r.count("not founded");
			}
		}
		r.saw(P, ("found", by.kind(), got.is_ok(), taken));
		r.log(|| format!("{by:?} founds community {id}: {:?}", got.as_ref().map(|_| ()).map_err(|e| &e.error)));
	}
	for (c, _) in &founded {
		for i in 0..s.below(3) as u32 {
			let m = somebody(s);
			set_member(*c, i + 1, &m);
			members.push((*c, m));
		}
	}
	for (c, m) in &members {
		r.check(P, CommunityMemberships::is_member_of(c, m), || format!("{m:?} holds a membership of {c} without being a member"));
	}
	// the collective's tracks
	type KTracks = <Runtime as pallet_referenda::Config<KReferenda>>::Tracks;
	let ids: Vec<u16> = <KTracks as TracksInfo<Balance, u32>>::tracks().map(|t| t.id).collect();
	r.check(P, ids.windows(2).all(|w| w[0] < w[1]) && !ids.is_empty(), || format!("tracks {ids:?} of the collective are not in order"));
	let mut used = BTreeSet::new();
	let offices = [Who::Root, Who::CreateMemberships, Who::ReferendumCanceller, Who::ReferendumKiller];
	for w in &offices {
		let t = <KTracks as TracksInfo<Balance, u32>>::track_for(&origin(w).caller);
		r.check(P, t.map_or(false, |t| ids.contains(&t) && used.insert(t)), || format!("the collective decides for {w:?} on track {t:?} of {ids:?}"));
	}
	// it decides for nobody else, and only those promoted decide
	for _ in 0..4 {
		let w = someone(s);
		let Some(t) = no_panic(r, P, "track", || <KTracks as TracksInfo<Balance, u32>>::track_for(&origin(&w).caller).ok()) else { return };
		r.check(P, t.is_none() || offices.contains(&w), || format!("the collective decides for {w:?} on track {t:?}"));
		r.count("track looked up");
	}
	for t in &ids {
		let rank: u16 = <<Runtime as pallet_ranked_collective::Config<Collective>>::MinRankOfClass as Convert<u16, u16>>::convert(*t);
		r.check(P, rank >= 1, || format!("members of rank {rank} decide on track {t} of the collective"));
	}
	// memberships for sale belong to the treasury until they are sold
	let shop = <Runtime as pallet_communities_manager::Config>::MembershipsManagerCollectionId::get();
	let (amount, starting_at) = (1 + s.below(4) as u16, s.interesting(31) as u32);
	let call: RuntimeCall = pallet_communities_manager::Call::<Runtime>::create_memberships { amount, starting_at, price: 1 + s.interesting(40) }.into();
	let w = if s.bool() { s.pick(&[Who::Root, Who::CreateMemberships]) } else { someone(s) };
	kv::start_transaction();
	for i in 0..amount as u32 {
		pallet_nfts::Pallet::<Runtime, Nfts>::set_item(shop, starting_at + i, None);
	}
	rehearse(r, || call.clone().dispatch(origin(&w)));
	let Some(got) = no_panic(r, P, "create memberships", || call.dispatch(origin(&w)).is_ok()) else { return };
	for i in 0..amount as u32 {
		let item = pallet_nfts::Pallet::<Runtime, Nfts>::item(shop, starting_at + i);
		r.check(P, got == matches!(w, Who::Root | Who::CreateMemberships) && item.as_ref().map_or(!got, |i| got && i.owner == treasury()), || format!("{w:?} puts membership {} up for sale ({got}): {item:?}", starting_at + i));
	}
	kv::rollback_transaction();
	r.count(if got { "memberships put up for sale" } else { "memberships not put up for sale" });
	r.log(|| format!("{w:?} puts {amount} memberships up for sale: {got}"));
	for _ in 0..10 {
		if crate::fatal(r) {
			return;
		}
		let w = match s.below(4) {
			0 if !members.is_empty() => Who::Signed(s.pick(&members.clone()).1),
			1 if !founded.is_empty() => match s.below(3) {
				0 => Who::Signed(s.pick(&founded.clone()).1),
				1 => Who::Signed(community(s.pick(&founded.clone()).0)),
				_ => Who::Voice(s.pick(&founded.clone()).0, s.below(5) as u8),
			},
			_ => someone(s),
		};
		let w = &w;
		let signed_as = |w: &Who| match w {
			Who::Signed(a) => As(a.clone()),
			_ => No,
		};
		let as_community = |w: &Who| match w {
			Who::Voice(c, 0) => As(community(*c)),
			Who::Voice(c, _) => Perhaps(community(*c)),
			_ => No,
		};
		rows! { r, w;
			"force an asset's state": <Runtime as pallet_assets::Config<AssetsInst>>::ForceOrigin => root;
			"force a membership's state": <Runtime as pallet_nfts::Config<Nfts>>::ForceOrigin => root;
			"reject spending": <Runtime as pallet_treasury::Config>::RejectOrigin => root;
			"spend the treasury": <Runtime as pallet_treasury::Config>::SpendOrigin => never;
			"schedule calls": <Runtime as pallet_scheduler::Config>::ScheduleOrigin => root;
			"manage preimages": <Runtime as pallet_preimage::Config>::ManagerOrigin => root;
			"control message queues": <Runtime as cumulus_pallet_xcmp_queue::Config>::ControllerOrigin => root;
			"administrate messages": <Runtime as pallet_xcm::Config>::AdminOrigin => root;
			"select collators": <Runtime as pallet_collator_selection::Config>::UpdateOrigin => |w: &Who| match w {
				Who::Root => Yes,
				Who::Xcm(l) if matches!(l.unpack(), (1, [Plurality { id: BodyId::Defense, part: BodyPart::Voice }])) => Yes,
				_ => No,
			};
			"upload contracts": <Runtime as pallet_contracts::Config>::UploadOrigin => root_as_treasury;
			"instantiate contracts": <Runtime as pallet_contracts::Config>::InstantiateOrigin => |w: &Who| match w {
				Who::Root => As(treasury()),
				Who::Voice(1 | 2, _) => as_community(w),
				_ => No,
			};
			"create communities directly": <Runtime as pallet_communities::Config>::CreateOrigin => never;
			"create memberships": <Runtime as pallet_communities_manager::Config>::CreateMembershipsOrigin => |w: &Who| match w {
				Who::Root | Who::CreateMemberships => Yes,
				_ => No,
			};
			"send payments": <Runtime as pallet_payments::Config>::SenderOrigin => |w: &Who| match w {
				Who::Signed(a) => As(a.clone()),
				w => as_community(w),
			};
			"receive payments": <Runtime as pallet_payments::Config>::BeneficiaryOrigin => signed_as;
			"resolve disputes": <Runtime as pallet_payments::Config>::DisputeResolver => root_as_treasury;
			"cancel the collective's referenda": <Runtime as pallet_referenda::Config<KReferenda>>::CancelOrigin => |w: &Who| if *w == Who::ReferendumCanceller { Yes } else { No };
			"kill the collective's referenda": <Runtime as pallet_referenda::Config<KReferenda>>::KillOrigin => |w: &Who| if *w == Who::ReferendumKiller { Yes } else { No };
			"cancel communities' referenda": <Runtime as pallet_referenda::Config<CReferenda>>::CancelOrigin => root;
			"kill communities' referenda": <Runtime as pallet_referenda::Config<CReferenda>>::KillOrigin => root;
			"add to the collective": <Runtime as pallet_ranked_collective::Config<Collective>>::AddOrigin => never;
			"promote in the collective": <Runtime as pallet_ranked_collective::Config<Collective>>::PromoteOrigin => root;
			"demote in the collective": <Runtime as pallet_ranked_collective::Config<Collective>>::DemoteOrigin => root;
			"remove from the collective": <Runtime as pallet_ranked_collective::Config<Collective>>::RemoveOrigin => root;
			"exchange in the collective": <Runtime as pallet_ranked_collective::Config<Collective>>::ExchangeOrigin => root;
			"administrate tracks": <Runtime as pallet_referenda_tracks::Config<Tracks>>::AdminOrigin => root;
		}
		let a = asset(&hub_asset(1)).expect("an asset");
		let c = some_id(s);
		rows_with! { r, w;
			"create assets": <Runtime as pallet_assets::Config<AssetsInst>>::CreateOrigin, &a => never;
			"create membership collections": <Runtime as pallet_nfts::Config<Nfts>>::CreateOrigin, &c => root_as_treasury;
		}
		// the collective's referenda: any account
		let o = origin(w);
		let any = origin(&someone(s)).caller;
		let Some(got) = no_panic(r, P, "submit", || {
			<<Runtime as pallet_referenda::Config<KReferenda>>::SubmitOrigin as EnsureOriginWithArg<RuntimeOrigin, OriginCaller>>::try_origin(o, &any).ok()
		}) else {
			return;
		};
		judge(r, "submit to the collective", w, got.map(Some), signed_as(w));
		// a community's referenda: its members
		let (track, c) = match s.below(3) {
			0 => (someone(s), None),
			_ if founded.is_empty() => (someone(s), None),
			_ => {
				let c = s.pick(&founded.clone()).0;
				(Who::Voice(c, 0), Some(c))
			}
		};
		let c = c.or(match track {
			Who::Voice(c, 0) if founded.iter().any(|f| f.0 == c) => Some(c),
			_ => None,
		});
		let (o, t) = (origin(w), origin(&track).caller);
		let Some(got) = no_panic(r, P, "submit", || {
			<<Runtime as pallet_referenda::Config<CReferenda>>::SubmitOrigin as EnsureOriginWithArg<RuntimeOrigin, OriginCaller>>::try_origin(o, &t).ok()
		}) else {
			return;
		};
		let want = match (w, c) {
			(Who::Root, _) => As(treasury()),
			(Who::Signed(a), Some(c)) if members.iter().any(|m| m.0 == c && m.1 == *a) => As(a.clone()),
			_ => No,
		};
		let m = matches!(want, As(_));
		judge(r, if c.is_some() { "submit to a community" } else { "submit to nobody's track" }, w, got.map(Some), want);
		if m && *w != Who::Root {
			r.count("member submits");
		}
		// changing a track: the community deciding on it
		let id = match s.below(3) {
			0 => some_id(s),
			_ if founded.is_empty() => some_id(s),
			_ => s.pick(&founded.clone()).0,
		};
		let o = origin(w);
		let Some(got) = no_panic(r, P, "update track", || {
			<<Runtime as pallet_referenda_tracks::Config<Tracks>>::UpdateOrigin as EnsureOriginWithArg<RuntimeOrigin, u16>>::try_origin(o, &id).ok()
		}) else {
			return;
		};
		let own = matches!(w, Who::Voice(c, 0) if *c == id && founded.iter().any(|f| f.0 == id));
		judge(r, "update a track", w, got.map(|_| None), if own { Yes } else { No });
		// founding and passes, with what they cost
		let o = origin(w);
		let Some(got) = no_panic(r, P, "found", || <<Runtime as pallet_communities_manager::Config>::RegisterOrigin as EnsureOrigin<RuntimeOrigin>>::try_origin(o).ok()) else { return };
		let want = match w {
			Who::Root => Some(None),
			Who::Signed(a) => Some(Some((units / 2, a.clone(), treasury()))),
			_ => None,
		};
		r.check(P, got == want, || format!("{w:?} founds communities at the price {got:?} instead of {want:?}"));
		let o = origin(w);
		let user = [7u8; 32];
		let Some(got) = no_panic(r, P, "pass", || <<Runtime as pallet_pass::Config>::RegisterOrigin as EnsureOriginWithArg<RuntimeOrigin, [u8; 32]>>::try_origin(o, &user).ok()) else { return };
		let ok = match (w, &got) {
			(Who::Root, Some(None)) => true,
			(Who::Voice(_, 0), Some(None)) => true,
			(Who::Voice(_, 1..), Some(None) | None) => true,
			(Who::Signed(a), Some(None)) => community_of(a).is_some(),
			(Who::Signed(a), Some(Some(d))) => d.source == *a && d.amount == ed && d.dest == treasury(),
			(Who::Root | Who::Signed(_), _) => false,
			(_, got) => got.is_none(),
		};
		r.check(P, ok, || format!("{w:?} registers passes at the price {got:?}"));
		r.saw(P, ("prices", w.kind(), got.map(|x| x.is_some())));
	}
	// messages may not be executed or teleport from here
	let l = somewhere(s);
	let x = (l.clone(), Xcm::<RuntimeCall>(vec![Instruction::ClearOrigin]));
	r.check(P, !<<Runtime as pallet_xcm::Config>::XcmExecuteFilter as Contains<(Location, Xcm<RuntimeCall>)>>::contains(&x), || format!("{l:?} may execute messages"));
	let x = (l.clone(), vec![Asset { id: xcm::latest::AssetId(Location::parent()), fun: Fungibility::Fungible(1) }]);
	r.check(P, !<<Runtime as pallet_xcm::Config>::XcmTeleportFilter as Contains<(Location, Vec<Asset>)>>::contains(&x), || format!("{l:?} may teleport"));
	let _ = kreivo_runtime::PalletInfo::index::<kreivo_runtime::Payments>();
}
