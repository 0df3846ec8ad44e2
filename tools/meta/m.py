prop("M01", "A reply reaches exactly the request it answers",
     "Requests to one device are sent one at a time, the most important first and otherwise in order. A request that expects a reply returns the first well-formed reply with its sequence number, even one that arrives before sending has finished; other frames leave it waiting and go to their cluster. A failed send, a cut off reply, 5 s (28 s for end devices and undescribed devices) without a reply, and cancellation each end it with that error. Afterwards its sequence number is free and the next request is sent. Sequence numbers in use are refused, and requests that expect no reply return once sent.",
     "inputs schedules", "up to 3 requests; every history of 4 to 5 events with arbitrary sequence numbers and times; ZCL general, ZCL cluster and ZDO frames; immediate, slow and failing sends",
     "which packet, failure or timeout comes first depends on the schedule; tests follow a handful of them",
     "zigpy/device.py zigpy/util.py zigpy/datastructures.py",
     [("Device.request, Device.packet_received", "zigpy/device.py"), ("Requests", "zigpy/util.py")],
     state=[("_pending", "requests awaiting replies by sequence number", "zigpy/device.py")], observe=["results of Device.request(), packets sent"])
prop("M02", "Received packets reach the right device, endpoint and cluster once",
     "A packet belongs to the device with its short or long source address; its signal values and time are recorded there only, and the cluster of its source endpoint, server side first, is told of it. A repetition within 10 s of the first packet, equal except for sequence, time and signal values, is not handled again. An unknown short address is asked for its long address by one broadcast, an unknown long address is ignored. Until a device is initialized only ZDO frames, Basic cluster frames once it has endpoints, and all frames once its endpoints are described are handled, and every packet starts its initialization unless it is running; what is held back is first shown to registered handlers in order until one takes it, who may make the device ready. Frames handed over field by field reach the same place as packets. Relays are kept in order without zeros and repetitions.",
     "inputs schedules", "any source address, endpoint and cluster; packets differing in any field at any times; every degree of initialization; up to 4 relays",
     "tests use a few fixed packets; address, duplicate and initialization rules interact",
     "zigpy/application.py zigpy/device.py zigpy/endpoint.py zigpy/types/named.py",
     [("packet_received, handle_relays", "zigpy/application.py"), ("Device.packet_received", "zigpy/device.py")], observe=["cluster listener events, packets sent, device.lqi/rssi/last_seen/relays"])
prop("M03", "Listeners for frames get each matching frame, and only those",
     "Listeners registered for frames of one device, or of any device, see every frame from it that answers no pending request, any-device listeners first, each group in order of registration. A callback listener is called once with each frame that matches a filter; a future listener resolves with the first, and takes it so that later listeners do not see it. A schema filter matches a command of its kind whose given fields are equal; a function filter whatever it accepts. Failing callbacks affect nobody else, the cluster is told regardless, removed listeners are told nothing, and none are left behind.",
     "inputs histories", "up to 3 listeners of every kind and source, any filter values; 3 frames with any fields from two devices; any listener removed or cancelled",
     "which listener consumes which frame depends on order, source and field values together",
     "zigpy/listeners.py zigpy/device.py zigpy/application.py zigpy/types/struct.py",
     [("BaseRequestListener.resolve, FutureListener, CallbackListener", "zigpy/listeners.py"), ("Device.packet_received", "zigpy/device.py"), ("Struct.matches", "zigpy/types/struct.py")],
     observe=["wait_for_response, callback_for_response"])
prop("M04", "Frames that demand an answer get the right one, once",
     "A unicast attribute report is confirmed by one default response with its sequence number unless it disables them. A read of our attributes is answered once, in order, with each value of the Time and Basic clusters we know, at the current time, and as unsupported otherwise. IAS status changes are confirmed. OTA queries and stray block requests are answered with no image and abort when no update is running. NWK and IEEE address requests for us, and match requests, are answered with our addresses and the ZHA endpoint; others are not. Answers go to the asking cluster and endpoint; failing to send one leaks no error.",
     "inputs", "any sequence numbers, addresses, times of day and time zones, attributes and flags; failing sends",
     "tests answer one request each; wrong sequence numbers, directions, missing or double answers depend on flags and values",
     "zigpy/zcl/__init__.py zigpy/zcl/clusters/general.py zigpy/zcl/clusters/security.py zigpy/zdo/__init__.py zigpy/ota/manager.py",
     [("Cluster.handle_message, send_default_rsp", "zigpy/zcl/__init__.py"), ("Time, Ota handlers", "zigpy/zcl/clusters/general.py"), ("ZDO handlers", "zigpy/zdo/__init__.py")],
     observe=["packets sent, listener events"])
prop("M05", "Attribute reads, writes and reports agree with what is remembered",
     "A read asks once for exactly the attributes not answered from the cache, in order, and returns each by the name it was asked for: a value or a failure status, the default response's status if that came. Values read, reported or written successfully, and nothing else, are remembered under number and name with their type and announced once. An attribute answered as unsupported is noted, and no longer once it has a value; unsupported and cached ones are not requested when the cache may answer. Writes and reporting configurations send exactly what was given; values that do not fit and unknown names are refused unsent.",
     "inputs histories", "reads of up to 3 attributes in every cache state with any reply; writes of up to 2 with any values and reply; histories of 4 cache changes",
     "the outcome combines cache state, reply and names for each attribute; tests cover a few combinations",
     "zigpy/zcl/__init__.py", [("read_attributes, write_attributes, configure_reporting_multiple, _update_attribute", "zigpy/zcl/__init__.py")],
     state=[("_attr_cache", "known values", "zigpy/zcl/__init__.py"), ("unsupported_attributes", "attributes known to be unsupported", "zigpy/zcl/__init__.py")],
     observe=["results, packets sent, attribute_updated events"])
prop("M06", "Packets sent carry exactly what was asked for, to the right address",
     "A unicast carries the profile, cluster, endpoints, sequence number, priority and payload asked for, from our short address to the device's, or long ones if asked; an acknowledgement is requested as asked, else when no reply is expected; more time is given if a reply comes from an end device; a source route, if enabled, reverses the last relays. ZLL endpoints use the ZHA profile except for commissioning. ZCL commands have the right header flags, codes and arguments however these are passed. Group, broadcast, bind, leave and ZDO requests likewise; a group command yields a success response to it. Sequence numbers count up modulo 256.",
     "inputs", "any addresses, endpoints, profiles, clusters, sequence numbers, priorities, options and payloads; six commands in both directions; eight ZDO commands",
     "tests check one packet of each kind with mostly default options",
     "zigpy/application.py zigpy/device.py zigpy/endpoint.py zigpy/group.py zigpy/zcl/__init__.py zigpy/zdo/__init__.py",
     [("request, mrequest, broadcast", "zigpy/application.py"), ("Cluster.request, reply, _create_request", "zigpy/zcl/__init__.py"), ("Group.request", "zigpy/group.py"), ("ZDO, broadcast", "zigpy/zdo/__init__.py")],
     observe=["packets handed to send_packet"])
