#!/usr/bin/env python3
"""Writes the facade crates (one per SDK crate name the repository's sources use) and the manifests that compile the
repository's own crates from /repo against them. Run by hand; the output is committed."""
import os, shutil
W = '/verif/simsdk'
FAC = {
 'parity-scale-codec': 'codec', 'scale-info': 'scale_info', 'frame-support': 'frame_support', 'frame-system': 'frame_system',
 'frame-executive': 'frame_executive', 'sp-core': 'sp_core', 'sp-io': 'sp_io', 'sp-runtime': 'sp_runtime', 'sp-std': 'sp_std',
 'sp-weights': 'sp_weights', 'sp-version': 'sp_version', 'sp-api': 'sp_api', 'sp-blockchain': 'sp_blockchain', 'sp-rpc': 'sp_rpc',
 'sp-offchain': 'sp_offchain', 'sp-block-builder': 'sp_block_builder', 'sp-transaction-pool': 'sp_transaction_pool',
 'sp-consensus-aura': 'sp_consensus_aura', 'polkadot-runtime-common': 'polkadot_runtime_common',
 'frame-system-rpc-runtime-api': 'frame_system_rpc_runtime_api',
 'pallet-transaction-payment-rpc-runtime-api': 'pallet_transaction_payment_rpc_runtime_api',
 'enumflags2': 'enumflags2', 'numtoa': 'numtoa', 'hex': 'hex', 'impl-serde': 'impl_serde', 'cid': 'cid', 'multibase': 'multibase', 'rayon': 'rayon',
 'pallet-balances': 'pallets::balances', 'pallet-transaction-payment': 'pallets::transaction_payment', 'pallet-utility': 'pallets::utility',
 'pallet-collective': 'pallets::collective', 'pallet-proxy': 'pallets::proxy', 'pallet-timestamp': 'pallets::timestamp', 'pallet-sudo': 'pallets::sudo',
 'pallet-democracy': 'pallets::inert::democracy', 'pallet-scheduler': 'pallets::inert::scheduler', 'pallet-preimage': 'pallets::inert::preimage',
 'pallet-multisig': 'pallets::inert::multisig', 'pallet-treasury': 'pallets::inert::treasury', 'pallet-session': 'pallets::inert::session',
 'pallet-authorship': 'pallets::inert::authorship', 'pallet-aura': 'pallets::inert::aura', 'cumulus-pallet-aura-ext': 'pallets::inert::aura_ext',
 'parachain-info': 'pallets::inert::parachain_info', 'pallet-collator-selection': 'pallets::inert::collator_selection',
 'cumulus-pallet-parachain-system': 'pallets::parachain_system', 'cumulus-primitives-core': 'cumulus_primitives_core',
}
shutil.rmtree(W + '/facades', ignore_errors=True)
for n, m in FAC.items():
    d = f'{W}/facades/{n}'
    os.makedirs(d)
    open(d + '/Cargo.toml', 'w').write(f'''[package]
name = "{n}"
version = "0.0.0"
edition = "2021"
[lib]
path = "lib.rs"
[features]
default = ["std"]
std = []
derive = []
[dependencies]
simsdk = {{ path = "../../core" }}
''')
    open(d + '/lib.rs', 'w').write(f'#![allow(unused_imports)]\npub use simsdk::{m}::*;\n')
RT = ['parity-scale-codec', 'scale-info', 'frame-support', 'frame-system', 'sp-core', 'sp-io', 'sp-runtime', 'sp-std']
EXT = {
 'serde': '{ version = "1", features = ["derive"] }', 'serde_json': '"1"', 'smallvec': '"1"', 'log': '"0.4"', 'twox-hash': '{ version = "=1.6.3", default-features = false }',
 'jsonrpsee': '{ version = "=0.16.3", features = ["client-core", "server", "macros"] }', 'parking_lot': '"0.12"', 'thiserror': '"1"',
 'apache-avro': '{ version = "0.14", features = ["snappy"] }',
}
REPO = {  # crate: (lib path, deps)
 'common-primitives': ('common/primitives/src/lib.rs', RT + ['impl-serde', 'serde', 'serde_json', 'enumflags2', 'smallvec', 'sp-api', 'numtoa'], ['runtime-benchmarks', 'test']),
 'common-helpers': ('common/helpers/src/lib.rs', RT + ['apache-avro', 'thiserror', 'jsonrpsee', 'sp-api', 'common-primitives'], []),
 'pallet-capacity': ('pallets/capacity/src/lib.rs', RT + ['common-primitives', 'log'], ['frequency', 'runtime-benchmarks', 'try-runtime', 'test']),
 'pallet-schemas': ('pallets/schemas/src/lib.rs', RT + ['serde', 'serde_json', 'common-primitives', 'log', 'numtoa'], []),
 'pallet-msa': ('pallets/msa/src/lib.rs', RT + ['common-primitives', 'log', 'hex', 'serde', 'serde_json', 'sp-offchain', 'pallet-schemas', 'pallet-handles', 'handles-utils', 'pallet-collective', 'enumflags2'], []),
 'pallet-handles': ('pallets/handles/src/lib.rs', RT + ['common-primitives', 'numtoa', 'handles-utils', 'log'], []),
 'pallet-stateful-storage': ('pallets/stateful-storage/src/lib.rs', RT + ['common-primitives', 'twox-hash', 'log'], []),
 'pallet-messages': ('pallets/messages/src/lib.rs', RT + ['common-primitives', 'cid', 'multibase', 'log'], []),
 'pallet-time-release': ('pallets/time-release/src/lib.rs', RT + ['common-primitives', 'log', 'pallet-balances', 'serde'], []),
 'pallet-frequency-tx-payment': ('pallets/frequency-tx-payment/src/lib.rs', RT + ['common-primitives', 'pallet-capacity', 'pallet-transaction-payment', 'pallet-utility', 'log'], []),
 'pallet-passkey': ('pallets/passkey/src/lib.rs', RT + ['common-primitives', 'common-runtime', 'pallet-transaction-payment', 'log', 'pallet-balances'], []),
 'common-runtime': ('runtime/common/src/lib.rs', RT + ['common-primitives', 'smallvec', 'sp-weights', 'pallet-balances', 'pallet-collective', 'pallet-democracy', 'pallet-multisig', 'pallet-preimage', 'pallet-scheduler', 'pallet-session', 'pallet-sudo', 'pallet-timestamp', 'pallet-treasury', 'pallet-utility', 'pallet-proxy', 'cumulus-primitives-core', 'pallet-collator-selection', 'pallet-time-release'], ['frequency', 'frequency-no-relay', 'frequency-lint-check', 'frequency-testnet', 'frequency-local']),
 'system-runtime-api': ('runtime/system-runtime-api/src/lib.rs', RT + ['serde_json', 'sp-api', 'common-primitives'], []),
}
for p in ['handles', 'stateful-storage', 'schemas', 'frequency-tx-payment', 'msa', 'messages']:
    x = ['pallet-transaction-payment'] if p == 'frequency-tx-payment' else []
    REPO[f'pallet-{p}-runtime-api'] = (f'pallets/{p}/src/runtime-api/src/lib.rs', RT + ['sp-api', 'common-primitives'] + x, [])
    if p == 'frequency-tx-payment':
        x = x + ['pallet-transaction-payment-rpc-runtime-api', 'sp-rpc', 'sp-weights']
    if p == 'msa':
        x = x + ['rayon', 'sp-offchain', 'parking_lot', 'pallet-schemas']
    REPO[f'pallet-{p}-rpc'] = (f'pallets/{p}/src/rpc/src/lib.rs', RT + ['sp-api', 'sp-blockchain', 'common-primitives', 'common-helpers', 'jsonrpsee', f'pallet-{p}-runtime-api'] + x, [])
shutil.rmtree(W + '/repo', ignore_errors=True)
for n, (lib, deps, feats) in REPO.items():
    d = f'{W}/repo/{n}'
    os.makedirs(d)
    s = f'[package]\nname = "{n}"\nversion = "0.0.0"\nedition = "2021"\nautobenches = false\n[lib]\npath = "/repo/{lib}"\ndoctest = false\ntest = false\n[features]\ndefault = ["std"]\nstd = []\n'
    for f in feats:
        s += f'{f} = []\n'
    s += '[dependencies]\nsimsdk = { path = "../../core" }\n'
    for x in deps:
        if x in EXT: s += f'{x} = {EXT[x]}\n'
        elif x in FAC: s += f'{x} = {{ path = "../../facades/{x}" }}\n'
        elif x == 'handles-utils': s += 'handles-utils = { path = "/repo/pallets/handles/src/handles-utils" }\n'
        else: s += f'{x} = {{ path = "../{x}" }}\n'
    open(d + '/Cargo.toml', 'w').write(s)
