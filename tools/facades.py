#!/usr/bin/env python3
"""Writes standin/facade/<crate>: one crate per external name, each re-exporting its module of kreivo-world."""
import os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "standin", "facade")
NAMES = """assets-common frame-executive frame-system-rpc-runtime-api pallet-assets-freezer pallet-asset-tx-payment pallet-assets
pallet-aura pallet-authorship pallet-balances pallet-contracts pallet-multisig pallet-preimage pallet-proxy
pallet-ranked-collective pallet-scheduler pallet-session pallet-skip-feeless-payment pallet-sudo pallet-timestamp
pallet-transaction-payment pallet-transaction-payment-rpc-runtime-api pallet-treasury pallet-utility pallet-vesting
sp-api sp-block-builder sp-consensus-aura sp-genesis-builder sp-inherents sp-offchain sp-session sp-transaction-pool
sp-version pallet-xcm polkadot-core-primitives polkadot-parachain-primitives polkadot-runtime-common polkadot-primitives
xcm-builder xcm-executor cumulus-pallet-aura-ext cumulus-pallet-parachain-system cumulus-pallet-session-benchmarking
cumulus-pallet-xcm cumulus-pallet-xcmp-queue cumulus-primitives-aura cumulus-primitives-core cumulus-primitives-timestamp
cumulus-primitives-utility pallet-collator-selection pallet-message-queue parachain-info parachains-common fc-traits-authn
fc-traits-gas-tank pallet-gas-transaction-payment pallet-pass pallet-referenda-tracks pass-webauthn""".split()
for n in NAMES:
    d = os.path.join(ROOT, n)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    with open(os.path.join(d, "Cargo.toml"), "w") as f:
        f.write(f'[package]\nname = "{n}"\nversion = "0.1.0"\nedition = "2021"\npublish = false\n\n'
                f'[lib]\ndoctest = false\ntest = false\n\n[dependencies]\nkreivo-world = {{ path = "../../world" }}\n')
    with open(os.path.join(d, "src", "lib.rs"), "w") as f:
        f.write(f'#![allow(unused_imports)]\npub use kreivo_world::{n.replace("-", "_")}::*;\n')
