prop("O01", "Firmware files are read exactly if they are whole, whatever they are wrapped in",
     "A firmware file is read exactly if its header is whole, starts with the Zigbee magic, its header length is that of the fields announced, and the image size fits the file and is filled by whole elements (for Philips Hue files: by their signed data). Header, elements, data and what follows the image are those in the file, and the image serializes to the bytes it was read from. Images inside Legrand, Third Reality and IKEA containers are found where the container says and only if sizes and hashes match; any other file is refused with ValueError. An image made by hand is written only if its size field is right.",
     "inputs", "files of up to 90 bytes with any header, optional fields, lengths and elements, cut off anywhere or followed by more; containers with any sizes, offsets and hashes",
     "parsers of nested lengths fail on inputs nobody samples; a wrong image can destroy a device",
     "zigpy/ota/image.py", [("OTAImageHeader, OTAImage, HueSBLOTAImage, parse_ota_image", "zigpy/ota/image.py")], observe=["the image, its bytes, what is left, exceptions"])
prop("O02", "Firmware is valid exactly if it is whole and its checksum is right",
     "GBL firmware is valid exactly if its elements lie within it up to the end element and the checksum up to there is right; EBL firmware moreover must fill 64-byte blocks and have only 0xFF after the end element. Anything else that starts like them is reported as a validation error, and other firmware is of unknown validity. An image is invalid if any firmware in it is, valid if all is, and else unknown.",
     "inputs", "firmware of up to 56 (GBL) and 256 bytes (EBL) with any lengths and checksum; images of up to 3 elements",
     "checksum and length errors hide in all possible contents", "zigpy/ota/validators.py",
     [("parse_silabs_ebl, parse_silabs_gbl, validate_firmware, validate_ota_image, check_invalid", "zigpy/ota/validators.py")], observe=["results and ValidationErrors"])
prop("O03", "Only firmware meant for a device is offered to it, best first",
     "For a device's query, images offered as upgrades are exactly those of compatible providers whose manufacturer, type, hardware limits, model and manufacturer names, in the index or in the file, match, whose version is newer and whose limits on the current version hold; others that match are downgrades. Both are ordered by version, then specificity, best first. Different files with equal version and specificity are all left out. Failing or slow providers and downloads leave the others untouched; nothing is downloaded twice and a failed download is tried again.",
     "inputs histories faults schedules", "up to 3 images from up to 2 providers with any versions, limits and names; failures; 2 queries in a row or at once",
     "restrictions combine with downloads and caching; offering a wrong image can destroy a device", "zigpy/ota/__init__.py zigpy/ota/providers.py",
     [("OTA.get_ota_images, OtaImageWithMetadata.check_compatibility, check_version, specificity", "zigpy/ota/__init__.py")],
     state=[("_image_cache", "images known by what is known about them", "zigpy/ota/__init__.py")], observe=["the images returned, downloads"])
prop("O04", "A firmware update gives the device exactly the image and ends with how it went",
     "An update notifies the device and answers each of its requests once: a query with the image exactly if it is for the device and newer or the update is forced, a block request with the bytes at that offset, at most 40, and a request beyond the end with an error. Only the first update of a device at a time starts. It ends, returning the status, when a refused query, an error, a failed delivery, the device's end request or 30 seconds without a delivered block happens; after success the version is read again. Nothing is answered afterwards and other devices are not involved.",
     "histories inputs faults schedules", "up to 3 requests of any kind with any fields, answered or not, at any of 3 times; both image formats, forced or not",
     "the protocol is driven by the device; tests follow the cooperative path", "zigpy/ota/manager.py zigpy/device.py",
     [("OTAManager, update_firmware", "zigpy/ota/manager.py")], observe=["packets sent, progress, the result"])
prop("O05", "Indexes of firmware are read as published and downloads are checked",
     "Each provider lists the images of its index, whatever numbers it holds, with the version, manufacturer, type, size, checksum, names and limits stated there, leaving out gateway files, entries it cannot understand and images known to destroy devices. An index of the wrong form is refused, and one is loaded at most once a day, also if that failed. A download is accepted exactly if its size and checksum are those announced, a signed IKEA container if its sizes fit and each block has its hash, an archived or local file if it has not changed. A provider is asked only for devices of its manufacturers.",
     "inputs faults histories", "indexes of up to 2 entries with any numbers; files of up to 70 bytes with any contents, size and checksum; up to 3 loads at any times; any manufacturer code",
     "accepting a damaged image destroys devices; the tests of this code need a network", "zigpy/ota/providers.py",
     [("BaseOtaImageMetadata.fetch, _validate, SignedIkeaRemoteOtaImageMetadata, _load_index of each provider", "zigpy/ota/providers.py")],
     state=[("_index_last_updated", "time of the last load", "zigpy/ota/providers.py")], observe=["metadata listed, images, exceptions, requests made"],
     note="F36 fixed: configured index URLs were ignored by four providers")
prop("O06", "The configured providers are used and devices are called to ask for updates",
     "The providers used are those listed, extra and switched on by deprecated settings, without the types disabled and not extra or switched off, and without earlier ones of a type whose later one overrides them, in order; each with the address and manufacturers configured or its own. Wrong settings are refused, and none are used when updates are disabled. A broadcast asks all devices to query with a jitter such that fifteen answers can be expected. Broadcasts come after their delay and then each period, failures or not, until stopped.",
     "inputs histories faults", "all combinations of settings of two provider types, up to 3 listed and 2 extra; up to 3 broadcasts with any times and outcomes; 0 to 2000 devices",
     "settings of two generations are merged; tests sample four configurations", "zigpy/ota/__init__.py zigpy/config/validators.py",
     [("OTA._register_providers, broadcast_notify, broadcast_loop", "zigpy/ota/__init__.py"), ("cv_ota_provider", "zigpy/config/validators.py")], observe=["the providers, packets sent"],
     note="known finding F37: the deprecated folder setting has no effect")
