"""All properties by identifier."""

from sim import props_beside, props_cli, props_clients, props_db, props_frozen, props_hand, props_lib, props_long, props_manifest, props_release, props_store

PROPS = {}
for module in (props_store, props_db, props_manifest, props_clients, props_hand, props_frozen, props_release, props_lib, props_long, props_cli, props_beside):
    PROPS.update(module.PROPS)
