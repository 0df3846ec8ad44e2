prop("Z01", "Cluster frame headers say exactly what was meant",
     "A cluster frame header reads its frame type, manufacturer flag, direction, default-response flag, optional manufacturer code, sequence number and command from exactly the bits the standard assigns, writes the same bytes back, leaves the payload untouched and refuses headers cut short. A header built or changed in code carries a manufacturer code exactly when one is given, and its flags always agree with its fields.",
     "inputs", "every header byte string up to 6 bytes; every combination of header fields and later changes to the manufacturer code",
     "tests decode a few literal headers; the flag bits interact with optional fields for every combination",
     "zigpy/zcl/foundation.py", [("ZCLHeader, FrameControl", "zigpy/zcl/foundation.py")], observe=["deserialize(), serialize(), constructors"])
prop("Z02", "Every cluster command survives the wire in both directions",
     "For every command of every registered cluster and every general command, the payload is its schema's fields in order, decoding the frame with its header selects that command by direction, kind and identifier and gives equal fields, whether built by position or by name. A payload cut short is refused or drops whole trailing optional or repeated fields and nothing else. Commands that are not defined are passed on raw with their header. The parts of a warning, a squawk or a system type octet are read where they are and set without touching each other.",
     "inputs programs", "every registered cluster command and general command; all field values; optional fields present or absent; truncation at every byte",
     "there are several hundred commands and tests decode a handful of frames; a schema or dispatch mistake shows only for the affected command",
     "zigpy/zcl/__init__.py zigpy/zcl/foundation.py zigpy/zcl/clusters/general.py",
     [("Cluster.deserialize, CommandSchema", "zigpy/zcl/__init__.py, zigpy/zcl/foundation.py")], observe=["Cluster.deserialize(), schema constructors and serialize()"])
prop("Z03", "Attribute values travel with their correct data type",
     "Each data type identifier has one type of the standard's size, sign, class and reserved non-value, and every attribute of every cluster is sent with a data type of its own width and sign. A typed value, array, set, bag or structure is its type identifiers, counts and elements in order and reads back equal, leaving what follows untouched; an unknown type is refused. Read records carry a value exactly when successful, reporting configurations a reportable change exactly for analog types, write and configuration responses only the failures or one success, and copies of records equal the original.",
     "inputs programs", "every data type and every attribute definition; all values; short strings and collections",
     "tests cover few types and records; a wrong entry in a table of 60 types or 1300 attributes is invisible to them",
     "zigpy/zcl/foundation.py zigpy/types/basic.py zigpy/zcl/clusters/security.py",
     [("DataType table, TypeValue, attribute records", "zigpy/zcl/foundation.py")], observe=["serialize(), deserialize(), DataType lookups"])
prop("Z04", "Device object commands are laid out, read and delivered as standardized",
     "Every device object (ZDO) command is its fields in order behind the sequence number, decodes to equal fields under its own identifier, and one cut short is refused or lacks only optional trailing fields. Undefined commands are refused while their header stays readable; identifiers from 0x8000 are replies. A command called by name is sent to endpoint 0 under its identifier, and a received request reaches listeners under its name with its fields. Fields of node descriptors, neighbors, routes, bindings and scan requests are what their bytes say; leaving, permitting, binding and broadcasting ask for just what they were called with.",
     "inputs", "every device object command; all field values; short lists; truncation at every byte",
     "tests use a few literal frames; field order and optional fields matter for each of 70 commands",
     "zigpy/zdo/types.py zigpy/zdo/__init__.py zigpy/types/__init__.py",
     [("CLUSTERS, ZDOHeader", "zigpy/zdo/types.py"), ("ZDO.deserialize/request/handle_message", "zigpy/zdo/__init__.py")], observe=["zdo.deserialize(), packets sent, listener events"])
prop("Z05", "Malformed packets do no harm",
     "Whatever bytes a device sends, to whichever endpoints and clusters, receiving the packet never raises and the next well-formed packet is still handled. Frames too short for a header, undefined commands, cut off payloads, and reported or read values that do not fit the attribute's type are ignored or kept as received.",
     "inputs", "packets with arbitrary endpoints, clusters and short payloads; every ZDO cluster; every general command; every attribute type reported as every data type",
     "a fault here needs one particular malformed frame; tests send a few",
     "zigpy/device.py zigpy/application.py zigpy/zcl/__init__.py zigpy/zdo/__init__.py",
     [("packet_received", "zigpy/application.py, zigpy/device.py"), ("Cluster.handle_message, _update_attribute", "zigpy/zcl/__init__.py")], observe=["ControllerApplication.packet_received(), Cluster.read_attributes()"])
prop("Z06", "Clusters know their attributes and commands however declared",
     "Every cluster identifier, on either side of an endpoint, leads to a cluster of the class defined for it, or one of a maker's from 0xFC00, or one nothing is known about. Attributes and commands declared in the old or new style are the same by number and by name, with their types, marks and directions; commands are sent and received under them. A cluster extending another has its own definitions and the other's, which stays as it is; clusters kept out of the registry change nothing there; two definitions of one name are refused. Access rights are those spelled out.",
     "inputs", "every cluster identifier; two attributes and three commands in every style with a few identifiers and types; three ways of extending; every spelling of up to 3 access rights",
     "definition styles interact with inheritance and registries shared by the whole process; tests look at single clusters", "zigpy/zcl/__init__.py zigpy/zcl/foundation.py zigpy/endpoint.py",
     [("Cluster.__init_subclass__, from_id, find_attribute", "zigpy/zcl/__init__.py"), ("ZCLAttributeDef, ZCLCommandDef, ZCLAttributeAccess", "zigpy/zcl/foundation.py")],
     state=[("registry", "clusters by identifier", "zigpy/zcl/__init__.py")], observe=["clusters of endpoints, definitions by name and number, frames sent, listener events"])
