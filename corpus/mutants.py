"""Realistic breakages: (id, properties, [(module, old, new)])."""
MUTANTS = []


def m(vid, props, *edits):
    MUTANTS.append((vid, props.split(), list(edits)))


W = "io"
m("write-skip-long-names", "C02", (W, 'if not key.startswith("_")]\n\n    # open new', 'if not key.startswith("_")\n                and len(key) < 60]\n\n    # open new'))
m("write-f4", "C02", (W, 'netcdf_dtype = "f8"', 'netcdf_dtype = "f4"'), (W, 'if dtype == "f8":', 'if dtype == "f4":'))
m("write-prefix-attr", "C02", (W, 'k.startswith(f"{key}_")', 'k.startswith(key) and "_" in k[1:]'))
m("write-lsd", "C02", (W, "zlib=use_zlib, complevel=compression)", "zlib=use_zlib, complevel=compression,\n                least_significant_digit=6 if compression > 6 else None)"))
m("write-global-lstrip", "C02 C05", (W, "setattr(file, key[7:],", 'setattr(file, key.lstrip("GLOBAL_"),'))
m("write-skip-empty-global", "C02", (W, 'setattr(file, key[7:], str(getattr(sofa, key)))', 'if getattr(sofa, key) != "":\n                setattr(file, key[7:], str(getattr(sofa, key)))'))
m("write-break-dim", "C02", (W, "            file.createDimension(dim, sofa._api[dim])", "            if sofa._api[dim] > 0:\n                file.createDimension(dim, sofa._api[dim])"))
m("write-unlimited", "C02", (W, "file.createDimension(dim, sofa._api[dim])", "file.createDimension(dim, None if dim == 'M' else sofa._api[dim])"))
m("write-S-cut", "C02", (W, 'dtype=f"S{str(S)}"', 'dtype=f"S{str(min(S, 256))}"'))
m("write-attr-strip", "C02", (W, "                        str(getattr(sofa, sub_key)))", "                        str(getattr(sofa, sub_key)).strip())"))
m("write-first-attr-only", "C02", (W, "                        str(getattr(sofa, sub_key)))", "                        str(getattr(sofa, sub_key)))\n                if sub_key.endswith('Units'):\n                    break"))
m("write-string-attrs-lost", "C02", (W, "            sub_keys = [k for k", "            if dtype == 'S1':\n                continue\n            sub_keys = [k for k"))
m("write-suppress", "C02", (W, "            setattr(file, key[7:], str(getattr(sofa, key)))", "            with contextlib.suppress(Exception):\n                setattr(file, key[7:], str(getattr(sofa, key)))"))
m("write-wrong-dims", "C02", (W, "shape = list(sofa._dimensions[key])", "shape = list(sofa._convention[key]['dimensions'].upper().split(', ')[0])"))
m("write-round", "C02", (W, "value = _atleast_nd(value, len(dimensions))\n        netcdf_dtype = \"f8\"", "value = np.round(_atleast_nd(value, len(dimensions)), 12)\n        netcdf_dtype = \"f8\""))
m("S-last-wins", "C02", ("sofa", "S = max(S, np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0]))", "S = np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0])"))

# ---- C03 reading
m("read-squeeze", "C03", (W, "            value = np.asarray(value)\n    elif", "            value = np.asarray(value).squeeze()\n    elif"))
m("read-f4", "C03", (W, "            value = np.asarray(value)\n    elif", "            value = np.asarray(value, dtype=np.float32)\n    elif"))
m("read-strip-text", "C03", (W, 'np.atleast_1d(value).astype("U")', 'np.char.strip(np.atleast_1d(value).astype("U"))'))
m("read-ascii", "C03", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, encoding="ascii")'))
m("read-text-cut", "C03", (W, 'np.atleast_1d(value).astype("U")', 'np.atleast_1d(value).astype("U64")'))
m("read-skip-units", "C03", (W, 'skip = ["_Encoding"]', 'skip = ["_Encoding", "_FillValue", "Comment"]'))
m("read-skip-short", "C03", (W, "            value = getattr(file, attr)\n", "            value = getattr(file, attr)\n            if not value:\n                continue\n"))
m("read-first-row", "C03", (W, "if value.size == 1 and key", "if value.shape[0] == 1 and key"))
m("read-slice", "C03", (W, "file[var][:], var)", "file[var][:-1], var)"))
m("read-var-global-attr", "C03", (W, "value = getattr(file[var], attr)", "value = getattr(file, attr, getattr(file[var], attr))"))
m("read-keep-existing", "C03", (W, """            else:
                setattr(sofa, f"GLOBAL_{attr}", value)""", """            elif attr != "DateCreated":
                setattr(sofa, f"GLOBAL_{attr}", value)"""))
m("read-keep-defaults", "C03", (W, "        if attr not in all_attr:\n            delattr", "        if attr not in all_attr and attr not in sofa._convention:\n            delattr"))
m("read-drop-more", "C03", (W, "                all_attr.append(var.replace(\".\", \"_\") + \"_\" + attr)\n", "                all_attr.append(var + \"_\" + attr)\n"))
m("read-break-attrs", "C03", (W, """                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
""", """                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
                    break
"""))
m("read-suppress", "C03", (W, "                    setattr(sofa, var.replace(\".\", \"_\") + \"_\" + attr, value)", "                    with contextlib.suppress(TypeError):\n                        setattr(sofa, var.replace(\".\", \"_\") + \"_\" + attr, value)"))
m("read-stay-protected", "C03", (W, """                custom.append(var.replace(".", "_"))
                sofa.protected = False
""", """                custom.append(var.replace(".", "_"))
"""))
m("read-filled", "C03", (W, "            warnings.warn(f\"Entry {key} contains missing data\", stacklevel=3)", "            warnings.warn(f\"Entry {key} contains missing data\", stacklevel=3)\n            value = value.filled(0)"))
m("read-not-protected", "C07", (W, "    # do not allow writing read only attributes any more\n    sofa.protected = True", "    # do not allow writing read only attributes any more\n    sofa.protected = not custom"))
m("read-replace-first", "C03", (W, "            all_attr.append(var.replace(\".\", \"_\"))\n", "            all_attr.append(var.replace(\"Data.\", \"Data_\"))\n"))

# ---- C05 names
SS = "sofastream"
m("stream-replace-anywhere", "C05", (SS, """        name_netcdf = name[7:] if is_global else name
        if name.startswith('Data_'):
            name_netcdf = name.replace('Data_', 'Data.', 1)
""", """        name_netcdf = name[7:] if is_global else name.replace('Data_', 'Data.')
"""))
m("stream-global-replace", "C05", (SS, "name_netcdf = name[7:] if is_global else name\n", "name_netcdf = name.replace('GLOBAL_', '')\n"))
m("stream-attr-of-file", "C05", (SS, "self._data = self._data.getncattr(var_attr)", "self._data = self._file.getncattr(var_attr)"))
m("stream-rpartition", "C05", (SS, "name_netcdf, var_attr = name_netcdf.split('_', 1)", "var_attr, name_netcdf = name_netcdf.split('_', 1)"))
m("stream-units-lower", "C05", (SS, "self._data = self._data.getncattr(var_attr)", "self._data = self._data.getncattr(var_attr.lower())"))
m("stream-case", "C05", (SS, "name_netcdf = name[7:] if is_global else name\n", "name_netcdf = name[7:].capitalize() if is_global else name\n"))
m("stream-test-attrs", "C05", (SS, "if name_netcdf in dset_variables and not is_global:", "if name_netcdf in dset_variables and name_netcdf in dset_attributes:"))
m("write-append-suffix", "C05", (W, """    # check the filename
    filename = pathlib.Path(filename).with_suffix('.sofa')

    if verify:""", """    # check the filename
    filename = pathlib.Path(str(filename) + '.sofa')

    if verify:"""))
m("write-suffix-if-none", "C05", (W, """    # check the filename
    filename = pathlib.Path(filename).with_suffix('.sofa')

    if verify:""", """    # check the filename
    filename = pathlib.Path(filename)
    if not filename.suffix:
        filename = filename.with_suffix('.sofa')

    if verify:"""))
m("read-isfile-first", "C05", (W, """    filename = pathlib.Path(filename).with_suffix('.sofa')
    if not os.path.isfile(filename):
        raise ValueError(f"{filename} does not exist")
""", """    if not os.path.isfile(filename):
        raise ValueError(f"{filename} does not exist")
    filename = pathlib.Path(filename).with_suffix('.sofa')
"""))
m("write-dot-all", "C05 C02", (W, 'key.replace("Data_", "Data."), dtype', 'key.replace("Data_", ""), dtype'))
m("write-global-strip", "C05 C02", (W, "setattr(file, key[7:],", "setattr(file, key[7:].strip('_'),"))
m("read-attr-dot", "C05 C03", (W, 'setattr(sofa, var.replace(".", "_") + "_" + attr, value)', 'setattr(sofa, var + "_" + attr, value)'))
m("read-title", "C05 C03", (W, 'setattr(sofa, f"GLOBAL_{attr}", value)', 'setattr(sofa, f"GLOBAL_{attr.strip()}", value)'))

# ---- C06 protection
SO = "sofa"
IO, UT, ST, UP = "io", "utils", "sofastream", "update_conventions"
m("set-new-falsy", "C06", (SO, "if self.protected and not hasattr(self, name):", "if self.protected and not hasattr(self, name) and '_' not in name:"))
m("set-new-in-convention", "C06", (SO, "if self.protected and not hasattr(self, name):", "if self.protected and not hasattr(self, name) \\\n                and name not in self._convention:"))
m("set-ro-same-type", "C06", (SO, "if name in self._read_only_attr and self.protected:", "if name in self._read_only_attr and self.protected \\\n                and value != getattr(self, name):"))
m("set-ro-dates", "C06", (SO, "if name in self._read_only_attr and self.protected:", "if name in self._read_only_attr and self.protected \\\n                and not name.startswith('GLOBAL_Date'):"))
m("set-store-first", "C06", (SO, "        # don't allow setting read only attributes\n        if name", "        if hasattr(self, name) and isinstance(value, str):\n            super().__setattr__(name, value)\n        # don't allow setting read only attributes\n        if name"))
m("set-ro-warn", "C06", (SO, '''            raise TypeError((
                f"{name} is a read only attribute. Iy you''', '''            raise ValueError((
                f"{name} is a read only attribute. Iy you'''))
m("set-float", "C06", (SO, "            value = np.atleast_2d(value)\n            if", "            value = np.atleast_2d(value).astype(float).round(12)\n            if"))
m("set-first", "C06", (SO, "            if value.size == 1:\n                value = value.flatten()[0]", "            if value.shape[0] == 1:\n                value = value.flatten()[0]"))
m("set-strip", "C06", (SO, "        super.__setattr__(self, name, value)", "        if isinstance(value, str):\n            value = value.strip()\n        super.__setattr__(self, name, value)"))
m("del-mandatory-empty", "C06", (SO, "if not self.protected or \\\n                not self._mandatory(self._convention[name][\"flags\"]):", "if not self.protected or not getattr(self, name) or \\\n                not self._mandatory(self._convention[name][\"flags\"]):"))
m("del-mandatory-custom", "C06", (SO, "if not self.protected or \\\n                not self._mandatory(self._convention[name][\"flags\"]):", "if not self.protected or name.startswith('GLOBAL_Date') or \\\n                not self._mandatory(self._convention[name][\"flags\"]):"))
m("del-ro", "C06", (SO, "not self._mandatory(self._convention[name][\"flags\"]):", "(not self._mandatory(self._convention[name][\"flags\"])\n                 and name not in self._read_only_attr):"))
m("del-mandatory-exact", "C06", (SO, "not self._mandatory(self._convention[name][\"flags\"]):", "self._convention[name][\"flags\"] != \"m\":"))
m("del-custom-stays", "C06", (SO, "                    self._custom.pop(name)\n", "                    pass\n"))
m("del-table-stays", "C06", (SO, "                    self._convention.pop(name, None)\n", ""))
m("del-custom-protected-only", "C06", (SO, 'if hasattr(self, "_custom"):\n                if name in self._custom:\n                    self._custom.pop', 'if hasattr(self, "_custom") and self.protected:\n                if name in self._custom:\n                    self._custom.pop'))
m("del-unprotects", "C06", (SO, "        delattr(self, name)\n", "        protected = self._protected\n        self.protected = False\n        delattr(self, name)\n        self.protected = protected\n"))
m("del-ignores-missing", "C06", (SO, "        delattr(self, name)\n", "        if not name.startswith('GLOBAL_'):\n            delattr(self, name)\n"))
m("ro-list-stale", "C06", (SO, "        self._convention = convention\n        self._update_read_only_attr()\n", "        self._convention = convention\n"))
m("ro-list-global-only", "C06", (SO, "            key for key in self._convention.keys()\n            if self", "            key for key in self._convention.keys()\n            if key.startswith('GLOBAL_') and self"))
m("ro-flag-exact", "C06", (SO, 'elif "r" not in flags:', 'elif flags != "r":'))
m("mand-flag-exact", "C06", (SO, 'elif "m" not in flags:', 'elif flags != "m":'))

# ---- C07 protection is switched on again
m("missing-early-return", "C07", (SO, "        self.protected = False\n\n        # loop data in convention\n", "        self.protected = False\n\n        if all(key in keys for key in self._convention):\n            return\n\n        # loop data in convention\n"))
m("missing-if-verbose", "C07", (SO, "        self.protected = True\n\n        if verbose:\n", "        if verbose:\n            self.protected = True\n"))
m("missing-break", "C07", (SO, "        self.protected = False\n\n        # loop data in convention\n        for key in self._convention.keys():\n", "        # loop data in convention\n        for key in self._convention.keys():\n            self.protected = False\n            if key.startswith('_'):\n                break\n"),
  (SO, "\n        self.protected = True\n\n        if verbose:\n", "            self.protected = True\n\n        if verbose:\n"))
m("upgrade-no-finally", "C07", (SO, "        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n", "        self._apply_upgrade(upgrade)\n        self.protected = True\n"))
m("upgrade-only-errors", "C07", (SO, "        finally:\n            self.protected = True\n", "        except ValueError:\n            self.protected = True\n            raise\n        self.protected = True\n"))
m("upgrade-print-first", "C07", (SO, "        finally:\n            self.protected = True\n", "        finally:\n            if upgrade['message'] is None:\n                self.protected = True\n"))
m("upgrade-lifts-later", "C07", (SO, "        # set default for verify\n        if verify == 'auto':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse('1.0') else False\n        if verify:\n            self.verify()\n\n    def _apply", "        # set default for verify\n        if verify == 'auto':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse('1.0') else False\n        if verify:\n            self.protected = False\n            self.verify()\n            self.protected = True\n\n    def _apply"))
m("entry-no-handler", "C07", (SO, "        try:\n            setattr(self, key, value)\n        except Exception:\n            self.protected = True\n            raise\n", "        setattr(self, key, value)\n"))
m("entry-valueerror", "C07", (SO, "        except Exception:\n            self.protected = True\n            raise\n", "        except ValueError:\n            self.protected = True\n            raise\n"))
m("entry-only-custom", "C07", (SO, '            self._convention[key] = self._custom[key]\n\n        self.protected = True\n', '            self._convention[key] = self._custom[key]\n\n            self.protected = True\n'))
m("entry-convert-late", "C07", (SO, '        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            dimensions = [d.upper()', '        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            if not dimensions.isalpha():\n                raise ValueError("invalid dimensions")\n            dimensions = [d.upper()'))
m("verify-window", "C07", (SO, "        self._api = {}\n        self.protected = True\n", "        self._api = {}\n"), (SO, "        # ---------------------------------------------------------------------\n        # 7.", "        self.protected = True\n        # ---------------------------------------------------------------------\n        # 7."))
m("verify-missing-window", "C07", (SO, "                    setattr(self, key, self._convention[key][\"default\"])\n                    self.protected = True\n", "                    setattr(self, key, self._convention[key][\"default\"])\n"), (SO, "        if missing:\n            if issue_handling == \"raise\":\n", "        if missing:\n            if issue_handling != 'return':\n                self.protected = True\n            if issue_handling == \"raise\":\n"))
m("read-protect-custom", "C07", (W, "    sofa.protected = True\n", "    if not len(custom):\n        sofa.protected = True\n"))
m("init-unprotected", "C07", (SO, '            f"{platform.python_compiler()}]")\n        self.protected = True\n', '            f"{platform.python_compiler()}]")\n'), (SO, "            self.protected = True\n        else:\n            verify = False\n", "            self.protected = verify is not False\n        else:\n            verify = False\n"))
m("delete-window", "C07", (SO, "        delattr(self, name)\n", "        if not self._mandatory(self._convention.get(\n                name, {'flags': None})['flags']):\n            self.protected = False\n        delattr(self, name)\n        self.protected = True\n"))
m("cm-no-finally", "C07", (SO, "    def _reset_convention(self):", """    @contextmanager
    def _unprotected(self):
        self.protected = False
        yield self
        self.protected = True

    def _reset_convention(self):"""), (SO, "import os\n", "import os\nfrom contextlib import contextmanager\n"),
  (SO, "        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n", "        with self._unprotected():\n            self._apply_upgrade(upgrade)\n"))
m("cm-forgets", "C07", (SO, "    def _reset_convention(self):", """    @contextmanager
    def _unprotected(self):
        try:
            self.protected = False
            yield self
        except ValueError:
            raise
        else:
            self.protected = True

    def _reset_convention(self):"""), (SO, "import os\n", "import os\nfrom contextlib import contextmanager\n"),
  (SO, "        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n", "        with self._unprotected():\n            self._apply_upgrade(upgrade)\n"))

# ---- C08 rejected additions
SETV = """        try:
            setattr(self, key, value)
        except Exception:
            self.protected = True
            raise
"""
REG = '''            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
'''
m("add-register-first", "C08", (SO, SETV, ""), (SO, "            self._convention[key] = self._custom[key]\n", "            self._convention[key] = self._custom[key]\n" + SETV.replace("\n        ", "\n            ").replace("        try", "            try", 1).rstrip() + "\n"))
m("add-check-late", "C08", (SO, '''        if dimensions is None and dtype != "attribute":
            raise ValueError(("dimensions must be provided for entries of "
                              "dtype double and string"))
''', ""), (SO, '        # lower case letters to indicate custom dimensions\n', '''        if dimensions is None and dtype != "attribute":
            self.protected = True
            raise ValueError(("dimensions must be provided for entries of "
                              "dtype double and string"))
        # lower case letters to indicate custom dimensions
'''))
m("add-verify-after", "C08", (SO, "        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n", "        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n        if dtype == 'double' and np.asarray(value).ndim > len(dimensions):\n            raise ValueError('value has too many dimensions')\n"))
m("add-overwrites", "C08", (SO, "        if hasattr(self, name):\n            raise ValueError(f\"Entry {name} already exists\")\n", "        if hasattr(self, name) and name not in getattr(\n                self, '_custom', {}):\n            raise ValueError(f\"Entry {name} already exists\")\n"))
m("add-exists-late", "C08", (SO, "        if hasattr(self, name):\n            raise ValueError(f\"Entry {name} already exists\")\n", "        if hasattr(self, name) and dtype != 'attribute':\n            raise ValueError(f\"Entry {name} already exists\")\n"))
m("add-exists-convention", "C08", (SO, "        if hasattr(self, name):\n            raise ValueError(f\"Entry {name} already exists\")\n", "        if name in self._convention:\n            raise ValueError(f\"Entry {name} already exists\")\n"))
m("add-dims-late", "C08", (SO, "            dimensions = dimensions.upper()\n            for dimension in dimensions:", "            for dimension in dimensions.upper():"), (SO, '''        # lower case letters to indicate custom dimensions
        if dimensions is not None:
''', '''        # lower case letters to indicate custom dimensions
        if dimensions is not None:
            assert len(dimensions) == np.ndim(value) or np.size(value) == 1
'''))
m("add-attr-var-late", "C08", (SO, '''        self._add_entry(name, value, 'attribute', None)
''', '''        self._add_entry(name, value, 'attribute', None)
        if not isinstance(value, str):
            raise ValueError("attributes must be strings")
'''))
m("add-float-late", "C08", (SO, '''        # add user entry to custom API, if not''', '''        if dtype == "double":
            setattr(self, key, np.asarray(value, dtype=float))
        # add user entry to custom API, if not'''))

# ---- C10 verification is complete
m("ver-skip-mandatory", "C10", (SO, "                    and key not in keys:\n", "                    and key not in keys and not key.endswith('_Units'):\n"))
m("ver-missing-custom", "C10", (SO, "            if self._mandatory(self._convention[key][\"flags\"]) \\\n", "            if self._convention[key][\"flags\"] == 'm' \\\n"))
m("ver-attr-bytes", "C10", (SO, "                if not isinstance(value, str):\n                    current_error += \\", "                if not isinstance(value, (str, bytes)):\n                    current_error += \\"))
m("ver-bool-data", "C10", (SO, "value.dtype.kind not in ['i', 'f']", "value.dtype.kind not in ['i', 'f', 'b']"))
m("ver-np-number", "C10", (SO, "(isinstance(value, (np.ndarray, np.number)) and\n", "(isinstance(value, np.ndarray) and\n"))
m("ver-object-strings", "C10", (SO, "                        str(value.dtype).startswith('<S')):", "                        value.dtype.kind in 'SO'):"))
m("ver-type-custom", "C10", (SO, "            # check data type\n            value = getattr(self, key)\n", "            # check data type\n            value = getattr(self, key)\n            if value is None:\n                continue\n"))
m("ver-name-custom", "C10", (SO, '''            if self._convention[key]["type"] == "attribute":
                continue

            if "_" in''', '''            if self._convention[key]["type"] == "attribute" or \\
                    key in getattr(self, "_custom", {}):
                continue

            if "_" in'''))
m("ver-reserved-prefix", "C10", (SO, 'if key.startswith("PRIVATE") or key.startswith("API"):', 'if key.startswith("PRIVATE_") or key.startswith("API"):'))
m("ver-global-elif", "C10", (SO, '''                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):''', '''                    (key.startswith("GLOBAL_") and
                     self._convention[key]["type"] == "double"):'''))
m("ver-custom-names", "C10", (SO, '''                if key.replace("GLOBAL_", "") in normative:''', '''                if key in normative:'''))
m("ver-custom-own", "C10", (SO, '''            normative = sf.Sofa(
                self.GLOBAL_SOFAConventions,
                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
            normative =''', '''            normative = [k for k in self._convention if k not in self._custom]
            normative ='''))
SHAPE = '''            if not shape_matched:
                # get possible'''
m("ver-shape-matched-once", "C10", (SO, "            shape_matched = False\n            for dim in dimensions.split", "            for dim in dimensions.split"), (SO, "        # 5. verify dimensions of data\n        current_error = \"\"\n", "        # 5. verify dimensions of data\n        current_error = \"\"\n        shape_matched = False\n"))
m("ver-shape-scalar", "C10", (SO, SHAPE, SHAPE.replace("shape_matched:", "shape_matched and np.size(value) > 1:")))
m("ver-shape-product", "C10", (SO, "                if shape_compare == shape_ref:", "                if np.prod(shape_compare) == np.prod(shape_ref):"))
m("ver-shape-first-dims", "C10", (SO, "                    [self._api[d.upper()] if d != \"S\" else 1 for d in dim])", "                    [self._api[d.upper()] if d != \"S\" else 1 for d in dim[:3]])"))
m("ver-shape-reset", "C10", (SO, "            shape_matched = False\n", "            shape_matched = False\n            current_error = \"\"\n"))
m("ver-shape-crop", "C10", (SO, '''                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
''', '''                shape_compare = shape_act[:len(shape_ref)]
'''))
m("ver-shape-flagged", "C10", (SO, '''        keys = [key for key in self.__dict__.keys()
                if key in self._convention
''', '''        keys = [key for key in self.__dict__.keys()
                if key in self._convention
                and self._convention[key]["flags"] is not None
'''))
m("ver-shape-one-empty", "C10", (SO, "                if shape_compare == shape_ref:", "                if shape_compare == shape_ref or 0 in shape_act:"))
m("ver-rule-optional", "C10", (SO, '''            # actual and possible values for the current key
''', '''            if self._convention[key_sofar]["flags"] is None:
                continue

            # actual and possible values for the current key
'''))
m("ver-rule-read", "C10", (SO, '''        for key in rules.keys():
''', '''        for key in (rules if mode == "write" else ()):
'''))
m("ver-rule-colon", "C10", (SO, '''            key_sofar = key.replace(".", "_").replace(":", "_")
''', '''            key_sofar = key.replace(".", "_", 1).replace(":", "_").lstrip("_")
'''))
m("ver-general-first", "C10", (SO, '''rules[key]["general"] if "general"''', '''rules[key]["general"][:1] if "general"'''))
m("ver-general-elif", "C10", (SO, '''                                      f"{key_sofar} is in SOFA object\\n")
                    continue
''', '''                                      f"{key_sofar} is in SOFA object\\n")
                    break
                break
'''))
m("ver-harmonics", "C10", (SO, '''                    ["cartesian", "spherical", "spherical harmonics"]:''', '''                    ["cartesian", "spherical"]:'''))
m("ver-specific-case", "C10", (SO, '''            if isinstance(test, str) and test.lower() in \\
                    ["cartesian", "spherical", "spherical harmonics"]:
                test = test.lower()
''', ""))
m("ver-specific-present", "C10", (SO, '''                    if not hasattr(self, key_dep_sofar):
                        current_error += (f"- {key_dep_sofar} must be given if"''', '''                    if not hasattr(self, key_dep_sofar):
                        if ref_dep is None:
                            continue
                        current_error += (f"- {key_dep_sofar} must be given if"'''))
m("ver-specific-custom", "C10", (SO, '''                    if ref_dep is None:
                        continue
''', '''                    if ref_dep is None or key_dep_sofar in \\
                            getattr(self, "_custom", {}):
                        continue
'''))
m("ver-dimension-max", "C10", (SO, "if dim_act not in dim_ref:", "if dim_act > max(dim_ref):"))
m("ver-dimension-first", "C10", (SO, '''                                 f"but must be {dim_str} if {key_sofar} "
                                 f"is {test}\\n")
''', '''                                 f"but must be {dim_str} if {key_sofar} "
                                 f"is {test}\\n")
                        break
'''))
m("ver-units-zip", "C10", (SO, '''        # check if number of units agree
        if len(units_ref) != len(units_test):
            return False

''', ""))
m("ver-units-known", "C10", (SO, '''            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''            if unit_test in unit_aliases \\
                    and unit_aliases[unit_test] != unit_ref:
                return False

        return True
'''))
m("ver-units-first", "C10", (SO, '''                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''                    or unit_aliases[unit_test] != unit_ref:
                return False
            return True

        return True
'''))
m("ver-datatype-case", "C10", (SO, '''if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
            if test in ref:''', '''if key in ["GLOBAL_SOFAConventions"]:
            if test in ref:'''))
m("ver-value-prefix", "C10", (SO, '''        test = test.lower()
        if test in ref:
            return True
''', '''        test = test.lower()
        if any(test.startswith(r) for r in ref):
            return True
'''))
m("ver-value-nonstring", "C10", (SO, '''            raise TypeError((
                "At this point, only string data should remain. Please report "
                "the issue: github.com/pyfar/sofar/issues"))
''', '''            return True
'''))
m("ver-unit-custom", "C10", (SO, 'if k.endswith("Units")]\n', 'if k.endswith("Units")\n                    and k not in getattr(self, "_custom", {})]\n'))
m("ver-unit-reset", "C10", (SO, '''        if mode == "write":
            keys = [k for''', '''        if mode == "write":
            current_error = ""
            keys = [k for'''))
m("ver-deprecation-custom", "C09", (SO, '''            if mode == "write":
                error_msg += msg
            else:''', '''            if mode == "write" and not current_error:
                error_msg = "\\nERRORS\\n------\\n" + msg
            elif float(self.GLOBAL_SOFAConventionsVersion) < 1.0:
                pass
            else:'''))
m("ver-deprecation-version", "C10", (SO, '''                deprecations["GLOBAL:SOFAConventions"]:
''', '''                deprecations["GLOBAL:SOFAConventions"] and \\
                float(self.GLOBAL_SOFAConventionsVersion) < 1:
'''))
m("ver-memo", "C10", (SO, '''        # 0. update the convention
        self._reset_convention()
''', '''        # nothing to do if nothing changed since the last call
        state = [k for k in self.__dict__ if not k.startswith("_")]
        if getattr(self, "_verified", None) == (mode, state):
            return None
        self.protected = False
        self._verified = (mode, state)
        self.protected = True

        # 0. update the convention
        self._reset_convention()
'''))
m("ver-early-write", "C10", (SO, '''        # 6. check restrictions on the content of SOFA files
''', '''        # 6. check restrictions on the content of SOFA files
        if mode == "read" and not error_msg.endswith("\\n"):
            return None
'''))
# ------------------------------------------------------------------ C09
H1 = '''        if warning_msg != "\\nWARNINGS\\n--------\\n":
            if issue_handling == "raise":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif issue_handling == "print":
                print(warning_msg)
        else:
            warning_msg = None
'''
H2 = '''        if error_msg != "\\nERRORS\\n------\\n":
            if issue_handling == "raise":
                raise ValueError(error_msg)
            elif issue_handling == "print":
                print(error_msg)
        else:
            error_msg = None
'''
H3 = '''        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
'''
m("iss-overwrite-shape", "C09", (SO, '''            error_msg += "Detected variables of wrong shape:\\n"
            error_msg += current_error''', '''            error_msg = "\\nERRORS\\n------\\n"
            error_msg += "Detected variables of wrong shape:\\n"
            error_msg += current_error'''))
m("iss-overwrite-names", "C09", (SO, '''            error_msg += (
                "Detected variable or attribute with reserved key words "''',
  '''            error_msg = (
                "Detected variable or attribute with reserved key words "'''))
m("iss-overwrite-entry", "C09", (SO, '''                    current_error += (f"- {key} must be int or float "''',
  '''                    current_error = (f"- {key} must be int or float "'''))
m("iss-overwrite-warning", "C09", (SO, '''            warning_msg += (
                "\\n\\nDetected preliminary''', '''            warning_msg = (
                "\\n\\nDetected preliminary'''))
m("iss-warning-last", "C09", (SO, H1 + "\n        # handle errors\n" + H2,
  H2 + "\n        # handle warnings\n" + H1))
m("iss-elif", "C09", (SO, H3, '''        if error_msg:
            issues = error_msg
        elif warning_msg:
            issues = warning_msg
'''))
m("iss-drop-warning", "C09", (SO, 'issues = error_msg + "\\n" + warning_msg',
  'issues = error_msg'))
m("iss-print-error-only", "C09", (SO, '''            elif issue_handling == "print":
                print(warning_msg)
''', '''            elif issue_handling == "print" and \\
                    error_msg == "\\nERRORS\\n------\\n":
                print(warning_msg)
'''))
m("iss-return-flag", "C09", (SO, '''            if issue_handling == "return":
                return issues

    @staticmethod''', '''            if issue_handling == "return" and _:
                return issues

    @staticmethod'''))
m("iss-early-none", "C09", (SO, '''            else:  # (issue_handling == "return"):
                return issues
''', '''            return None
'''))
m("iss-raise-warn", "C09", (SO, "                raise ValueError(error_msg)\n",
  "                warnings.warn(UserWarning(error_msg), stacklevel=2)\n"))
m("iss-ignore-raises", "C09", (SO, '''            if issue_handling == "raise":
                raise ValueError(error_msg)''', '''            if issue_handling in ("raise", "ignore"):
                raise ValueError(error_msg)'''),
  (SO, '''        if issue_handling != "ignore":
            _, issues''', '''        if issue_handling:
            _, issues'''))
m("iss-ignore-prints", "C09", (SO, '''            if issue_handling == "ignore":
                return

''', '''            if issue_handling == "ignore":
                print(error_msg)
                return

'''))
m("iss-print-warns", "C09", (SO, '''            if issue_handling == "raise":
                warnings.warn(''', '''            if issue_handling != "return":
                warnings.warn('''))
m("iss-silenced", "C09", (SO, '''        # handle warnings
''', '''        # handle warnings
        warnings.simplefilter("once")
'''))
m("iss-first-only", "C09", (SO, '''            if not shape_matched:
''', '''            if not shape_matched and not current_error:
'''))
m("iss-first-name", "C09", (SO, '''            if "_" in key.replace("Data_", ""):
                current_error''', '''            if "_" in key.replace("Data_", "") and not current_error:
                current_error'''))
m("iss-break", "C09", (SO, '''                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
''', '''                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
                    break
'''))
m("iss-read-warning", "C09", (SO, '''            if mode == "write":
                error_msg += msg
            else:
                warning_msg += msg
''', '''            if mode == "write":
                error_msg += msg
            elif error_msg == "\\nERRORS\\n------\\n":
                warning_msg += msg
'''))
m("iss-no-names", "C09", (SO, '''            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:
''', '''            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys and issue_handling != "return":
'''))
m("iss-lost-missing", "C09", (SO, '''                warning_msg += "Added mandatory data with default values:\\n"
                warning_msg += missing
''', '''                warning_msg += "Added mandatory data with default values\\n"
'''))
# ------------------------------------------------------------------ C11
m("obs-overwrite-default", "C11", (SO, '''            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:

                if''', '''            if self._mandatory(self._convention[key]["flags"]) \\
                    and (key not in keys or getattr(self, key) is None):

                if'''))
m("obs-add-optional", "C11", (SO, '''            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:

                if''', '''            if key not in keys:

                if'''))
m("obs-add-raise", "C11", (SO, '''                if issue_handling != "raise":
                    # add missing''', '''                if issue_handling != "return":
                    # add missing'''))
m("obs-fix-type", "C11", (SO, '''            value = getattr(self, key)

            if dtype == "attribute":
                if not isinstance(value, str):
''', '''            value = getattr(self, key)

            if dtype == "double" and isinstance(value, list):
                self.protected = False
                setattr(self, key, np.asarray(value))
                self.protected = True

            if dtype == "attribute":
                if not isinstance(value, str):
'''))
m("obs-lower-units", "C11", (SO, '''                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''                unit = getattr(self, key)
                self.__dict__[key] = unit.strip()
                if unit.lower() != unit:
'''))
m("obs-nan-in-place", "C11", (IO, '''    # copy value
    with contextlib.suppress(AttributeError):
        value = value.copy()

''', ""), (IO, '''        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
''', '''        value = _atleast_nd(value, len(dimensions))
        value[np.isnan(value)] = 0
        netcdf_dtype = "f8"
'''), (UT, '''    try:
        array = array.copy()
    except AttributeError:
        array = array

    if ndim''', '''    if ndim'''))
m("obs-squeeze-shape", "C11", (SO, '''                if value.size < 7:
''', '''                if value.ndim > 3:
                    value.shape = value.shape[:3]
                if value.size < 7:
'''), )
m("obs-equals-sort", "C11", (UT, '''        # compare double variables
''', '''        if type_a == "string" and type_b == "string":
            np.atleast_1d(a).sort()

        # compare double variables
'''))
m("obs-equals-pop", "C11", (UT, '''        elif exclude.upper() == "DATE":
''', '''        elif exclude.upper() == "DATE":
            sofa_b.__dict__.pop("GLOBAL_DateModified", None)
'''))
m("obs-write-date", "C11", (IO, '''    # setting the netCDF compression parameter
''', '''    if hasattr(sofa, "GLOBAL_DateModified"):
        sofa.GLOBAL_DateModified = "now"
    # setting the netCDF compression parameter
'''))
m("obs-write-api", "C11", (IO, '''        sofa.verify(mode="write")

''', '''        if sofa.verify(issue_handling="return", mode="write") is not None:
            sofa.verify(mode="write")

'''))
m("obs-copyto", "C11", (UT, '''                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
''', '''                a = np.squeeze(a)
                np.nan_to_num(a, copy=False, out=a)
                npt.assert_allclose(a, np.squeeze(b))
'''))
m("obs-inspect-round", "C11", (SO, '''                # add value information if not too much
''', '''                value = getattr(self, key)
                np.round(value, 6, out=value)
                # add value information if not too much
'''))

# ------------------------------------------------------------------ C12
ATTR_CMP = '''            if a != b:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''
ALLCLOSE = "npt.assert_allclose(np.squeeze(a), np.squeeze(b))"
SHAPE_CMP = '''                npt.assert_equal(np.shape(np.squeeze(a)),
                                 np.shape(np.squeeze(b)))
'''
STR_CMP = "if not np.array_equal(a, b):"
m("eq-overwrite-verdict", "C12", (UT, '''                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)

        # compare string variables''', '''                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
            else:
                is_identical = True

        # compare string variables'''))
m("eq-no-set", "C12", (UT, '''    if set(keys_a) != set(keys_b):
        return _equals_raise_warning(
            "not identical: sofa_a and sofa_b do not have the ame attributes",
            verbose)
''', ""))
m("eq-subset", "C12", (UT, '''    if len(keys_a) != len(keys_b):
        return _equals_raise_warning((
            f"not identical: sofa_a has {len(keys_a)} attributes for "
            f"comparison and sofa_b has {len(keys_b)}."), verbose)
''', ""), (UT, "if set(keys_a) != set(keys_b):", "if set(keys_a) - set(keys_b):"))
m("eq-verbose-return", "C12", (UT, '''    if verbose:
        warnings.warn(message, stacklevel=2)
    return False
''', '''    if verbose:
        warnings.warn(message, stacklevel=2)
        return False
'''), (UT, '''    return is_identical


def _equals''', '''    return is_identical is not False


def _equals'''))
m("eq-rtol", "C12", (UT, ALLCLOSE, "npt.assert_allclose(np.squeeze(a), np.squeeze(b), rtol=1e-3)"))
m("eq-atol", "C12", (UT, ALLCLOSE, "npt.assert_allclose(np.squeeze(a), np.squeeze(b), 1e-7, 1e-4)"))
m("eq-same-object", "C12", (UT, ALLCLOSE, "npt.assert_allclose(np.squeeze(a), np.squeeze(a))"))
m("eq-abs", "C12", (UT, ALLCLOSE, "npt.assert_allclose(np.abs(np.squeeze(a)), np.abs(np.squeeze(b)))"))
m("eq-mean", "C12", (UT, ALLCLOSE, "npt.assert_allclose(np.mean(a), np.mean(b))"))
m("eq-no-shape", "C12", (UT, SHAPE_CMP, ""))
m("eq-unsqueezed-shape", "C12", (UT, SHAPE_CMP, '''                npt.assert_equal(np.shape(a), np.shape(b))
'''))
m("eq-assert", "C12", (UT, "                " + ALLCLOSE, '''                assert np.allclose(np.squeeze(a), np.squeeze(b))'''))
m("eq-narrow-except", "C12", (UT, "except (AssertionError, TypeError, ValueError):", "except (AssertionError, TypeError):"))
m("eq-handler-pass", "C12", (UT, '''            except (AssertionError, TypeError, ValueError):
                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
''', '''            except (TypeError, ValueError):
                pass
            except AssertionError:
                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
'''))
m("eq-string-lower", "C12", (UT, STR_CMP, "if not np.array_equal(np.char.lower(a), np.char.lower(b)):"))
m("eq-string-any", "C12", (UT, STR_CMP, "if not np.any(a == b):"))
m("eq-attr-lower", "C12", (UT, "if a != b:", "if str(a).lower() != str(b).lower():"))
m("eq-attr-string-ok", "C12", (UT, 'elif type_a == "string" and type_b == "string":', 'elif type_a == "attribute" or type_b == "string":'))
m("eq-type-a", "C12", (UT, 'type_b = sofa_b._convention[key]["type"]', 'type_b = sofa_a._convention[key]["type"]'))
m("eq-global-prefix", "C12", (UT, 'keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]', 'keys_a = [k for k in keys_a if not k.startswith("G")]'), (UT, 'keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]', 'keys_b = [k for k in keys_b if not k.startswith("G")]'))
m("eq-global-b", "C12", (UT, 'keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]', 'keys_b = list(keys_b)'))
m("eq-date-prefix", "C12", (UT, 'keys_a = [k for k in keys_a if "Date" not in k]', 'keys_a = [k for k in keys_a if not k.startswith("GLOBAL_Date")]'))
m("eq-date-both-lower", "C12", (UT, 'keys_a = [k for k in keys_a if "Date" not in k]', 'keys_a = [k for k in keys_a if "date" not in k.lower()]'), (UT, 'keys_b = [k for k in keys_b if "Date" not in k]', 'keys_b = [k for k in keys_b if "date" not in k.lower()]'))
m("eq-attr-name", "C12", (UT, '''            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]''', '''            keys_a = [k for k in keys_a if "_" not in k]
            keys_b = [k for k in keys_b if "_" not in k]'''))
m("eq-attr-table-a", "C12", (UT, '''            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]''', '''            keys_b = [k for k in keys_b if
                      sofa_a._convention[k]["type"] != "attribute"]'''))
m("eq-private-suffix", "C12", (UT, 'keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]', 'keys_a = [k for k in sofa_a.__dict__.keys() if "__" not in k]'))
m("eq-skip-derived", "C12", (UT, '''    for key in keys_a:

        # get data and types''', '''    for key in keys_a:

        if key.endswith("_Units"):
            continue

        # get data and types'''))
m("eq-break-first", "C12", (UT, '''        # compare double variables
        elif''', '''            else:
                break

        # compare double variables
        elif'''))
m("eq-decode-latin", "C12", (UT, '''[np.char.decode(s, "utf-8")''', '''[np.char.decode(s, "ascii", "ignore")'''))

# ------------------------------------------------------------------ C13
LOADJ = '''        with open(path, "r") as file:
            convention = json.load(file)
'''
m("sh-module-cache", "C13", (SO, LOADJ, '''        if path not in _TABLES:
            with open(path, "r") as file:
                _TABLES[path] = json.load(file)
        convention = _TABLES[path]
'''), (SO, "class Sofa():", "_TABLES = {}\n\n\nclass Sofa():"))
m("sh-class-cache", "C13", (SO, LOADJ, '''        if path not in self._tables:
            with open(path, "r") as file:
                self._tables[path] = json.load(file)
        convention = dict(self._tables[path])
'''), (SO, "    _protected = False\n", "    _protected = False\n    _tables = {}\n"))
m("sh-lru-rules", "C13", (SO, "    @staticmethod\n    def _verification_rules():", "    @staticmethod\n    @functools.lru_cache\n    def _verification_rules():"), (SO, "import json", "import functools\nimport json"))
m("sh-lru-paths", "C13", (UT, "def _get_conventions(", "@functools.lru_cache(maxsize=None)\ndef _get_conventions("), (UT, "import os", "import functools\nimport os"))
m("sh-lru-json", "C13", (SO, LOADJ, '''        convention = _load(path)
'''), (SO, "class Sofa():", '''@functools.cache
def _load(path):
    with open(path, "r") as file:
        return json.load(file)


class Sofa():'''), (SO, "import json", "import functools\nimport json"))
m("sh-default-dict", "C13", (SO, "def _load_convention(self, convention, version):", "def _load_convention(self, convention, version, cache={}):"), (SO, LOADJ, '''        if path not in cache:
            with open(path, "r") as file:
                cache[path] = json.load(file)
        convention = cache[path]
'''))
m("sh-copy-shallow", "C13", (SO, "return deepcopy(self)", "return copy(self)"), (SO, "from copy import deepcopy", "from copy import copy"))
m("sh-copy-update", "C13", (SO, "return deepcopy(self)", '''new = Sofa(None)
        new.__dict__.update(self.__dict__)
        return new'''))
m("sh-deepcopy-hook", "C13", (SO, '''    def copy(self):
''', '''    def __deepcopy__(self, memo):
        new = Sofa(None)
        for key, value in self.__dict__.items():
            if key == "_convention":
                new.__dict__[key] = value
            else:
                new.__dict__[key] = deepcopy(value, memo)
        return new

    def copy(self):
'''))
m("sh-custom-class", "C13", (SO, "    _protected = False\n", "    _protected = False\n    _custom = {}\n"), (SO, '''            if not hasattr(self, "_custom"):
                self._custom = {}

''', ""))
m("sh-read-only-extend", "C13", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        for key in self._convention.keys():
            if self._read_only(self._convention[key]["flags"]) \\
                    and key not in self._read_only_attr:
                self._read_only_attr.append(key)
'''))
m("sh-global-last", "C13", (UT, "def version():\n", "_LAST = []\n\n\ndef version():\n"), (UT, "    is_identical = True\n", "    is_identical = True\n    _LAST.append(sofa_a)\n"))
m("sh-class-dates", "C13", (SO, '''        now = datetime.now().strftime("%Y-%m-%d %H:%M:%S")
''', '''        if Sofa._created is None:
            Sofa._created = datetime.now().strftime("%Y-%m-%d %H:%M:%S")
        now = Sofa._created
'''), (SO, "    _protected = False\n", "    _protected = False\n    _created = None\n"))
m("sh-default-entry", "C13", (SO, '''            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
''', '''            entry = _CUSTOM
            entry.update(flags=flags, dimensions=dimensions, type=dtype)
            self._custom[key] = entry
'''), (SO, "class Sofa():", '_CUSTOM = {"default": None, "comment": ""}\n\n\nclass Sofa():'))
m("sh-fn-attr", "C13", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
''', '''        if not hasattr(Sofa._verification_rules, "rules"):
            with open(os.path.join(base, "rules.json"), "r") as file:
                Sofa._verification_rules.rules = json.load(file)
        rules = Sofa._verification_rules.rules
'''))

# ---- C14 upgrades
m("up-any-target", "C14", (SO, "                    if target in targets:\n", "                    if target is not None:\n"))
m("up-case-target", "C14", (SO, "                    if target in targets:\n", "                    if target and target.startswith(targets[0].split('_')[0]):\n"))
m("up-never", "C14", (SO, '''                        print(upgrades)
                        return targets
                    break
''', '''                        print(upgrades)
                        return targets
'''))
m("up-second-rule", "C14", (SO, '''                if version_current in from_to[0]:
                    targets = from_to[1]
''', '''                if version_current <= max(from_to[0]):
                    targets = from_to[1]
'''))
m("up-set-before-check", "C14", (SO, '''                        if target is not None:
                            print(f"{target} is invalid.")
''', '''                        if target is not None:
                            print(f"{target} is invalid.")
                        else:
                            self.protected = False
                            self.GLOBAL_SOFAConventions = targets[0].split("_")[0]
                            self.protected = True
'''))
m("up-no-datatype", "C14", (SO, '''                "GLOBAL_Version",
                "GLOBAL_DataType"]

        for key in keys:
            setattr''', '''                "GLOBAL_Version"]

        for key in keys:
            setattr'''))
m("up-old-table", "C14", (SO, '''        for key in keys:
            setattr(self, key, self._convention[key]["default"])

        # move data''', '''        for key in keys:
            setattr(self, key, table[key]["default"])

        # move data'''), (SO, "    def _apply_upgrade(self, upgrade):", "    def _apply_upgrade(self, upgrade, table):"), (SO, "self._apply_upgrade(upgrade)", "self._apply_upgrade(upgrade, table)"), (SO, '''        convention_target, version_target = target.split("_")
''', '''        convention_target, version_target = target.split("_")
        table = self._convention
'''))
m("up-latest", "C14", (SO, '''            convention_target, version_target)
        sofa_version''', '''            convention_target, "latest")
        sofa_version'''))
m("up-move-first-axis", "C14", (SO, "np.moveaxis(data, moveaxis[0], moveaxis[1])", "np.moveaxis(data, moveaxis[1], moveaxis[0])"))
m("up-move-swapaxes", "C14", (SO, "np.moveaxis(data, moveaxis[0], moveaxis[1])", "np.swapaxes(data, *moveaxis)"))
m("up-move-truthy-axes", "C14", (SO, "            if moveaxis is not None:\n", "            if moveaxis is not None and data.ndim > 2:\n"))
m("up-leading-axes", "C14", (SO, "                    data = data[..., None]\n", "                    data = data[None]\n"))
m("up-move-keeps-old", "C14", (SO, "            delattr(self, source_sofar)\n            # Check move axis", "            if not source_sofar.startswith('GLOBAL_'):\n                delattr(self, source_sofar)\n            # Check move axis"))
m("up-move-after", "C14", (SO, "            delattr(self, source_sofar)\n            # Check move axis", "            # Check move axis"), (SO, '''            setattr(self, target_sofar, data)
            # print info
''', '''            setattr(self, target_sofar, data)
            delattr(self, source_sofar)
            # print info
'''))
m("up-move-existing", "C14", (SO, '''            # add data
            setattr(self, target_sofar, data)
''', '''            # add data
            if not hasattr(self, target_sofar):
                setattr(self, target_sofar, data)
'''))
m("up-move-colon", "C14", (SO, '''move["target"].replace(".", '_').replace(":", "_")''', '''move["target"].replace(":", "_")'''))
m("up-move-break", "C14", (SO, '''            if not hasattr(self, source_sofar):
                continue
''', '''            if not hasattr(self, source_sofar):
                break
'''))
m("up-remove-break", "C14", (SO, '''            if not hasattr(self, target_sofar):
                continue
''', '''            if not hasattr(self, target_sofar):
                break
'''))
m("up-remove-more", "C14", (SO, '''            delattr(self, target_sofar)
            print(f"- Deleting {target_sofar}.")
''', '''            for key in [k for k in self.__dict__
                        if k.startswith(target_sofar)]:
                delattr(self, key)
            print(f"- Deleting {target_sofar}.")
'''))
m("up-no-missing", "C14", (SO, '''        if not upgrade["remove"]:
            print("- No data to remove")

        # check for missing mandatory data
        self.add_missing(True, False)
''', '''        if not upgrade["remove"]:
            print("- No data to remove")
            return

        # check for missing mandatory data
        self.add_missing(True, False)
'''))
m("up-missing-optional-only", "C14", (SO, '''        # check for missing mandatory data
        self.add_missing(True, False)
''', '''        # check for missing mandatory data
        self.add_missing(False, True)
'''))
m("up-missing-first", "C14", (SO, '''        # check for missing mandatory data
        self.add_missing(True, False)
''', ""), (SO, '''        # move data
        for source, move in upgrade["move"].items():
''', '''        self.add_missing(True, False)

        # move data
        for source, move in upgrade["move"].items():
'''))
m("up-missing-optional-too", "C14 ", (SO, '''        # check for missing mandatory data
        self.add_missing(True, False)
''', '''        # check for missing mandatory data
        self.add_missing(True, True)
'''))
m("up-verify-old-version", "C14", (SO, "            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if", "            version = version_current\n            verify = True if"))
m("up-verify-greater", "C14", (SO, "parse(version) >= parse('1.0') else False\n        if verify:\n            self.verify()", "parse(version) > parse('1.0') else False\n        if verify:\n            self.verify()"))
m("up-verify-auto-truthy", "C14", (SO, '''        if verify == 'auto':
            version = self.GLOBAL_SOFAConventionsVersion
            verify = True if parse(version) >= parse('1.0') else False
''', ""))
m("up-verify-early", "C14", (SO, '''        # check for missing mandatory data
        self.add_missing(True, False)
''', '''        # check for missing mandatory data
        self.add_missing(True, False)
        self.verify()
'''))
m("up-stay-protected", "C14", (SO, '''        self.protected = False
        try:
            self._apply_upgrade(upgrade)
''', '''        try:
            self._apply_upgrade(upgrade)
'''))
m("up-wrong-id", "C14", (SO, "                        target_id = from_to[2]\n", "                        target_id = upgrade[convention_current][\"from_to\"][0][2]\n"))
m("up-id-of-target", "C14", (SO, "                        target_id = from_to[2]\n", "                        target_id = [r[2] for r in upgrade[convention_current][\"from_to\"] if target in r[1]][0]\n"))

# ---- C25 new and completed objects
m("new-mandatory-exact", "C25", (SO, '''            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
''', '''            if self._convention[key]["flags"] != "m" and mandatory:
'''))
m("new-skip-empty", "C25", (SO, '''            # get the default value
            default = self._convention[key]["default"]
''', '''            # get the default value
            default = self._convention[key]["default"]
            if default is None or default == "":
                continue
'''))
m("new-break", "C25", (SO, '''                    and mandatory:
                continue
''', '''                    and mandatory:
                break
'''))
m("new-existing", "C25", (SO, '''            # create attribute with default value
            setattr(self, key, default)
''', '''            # create attribute with default value
            if not hasattr(self, key):
                setattr(self, key, default)
'''))
m("new-class-names", "C25", (SO, '''            # create attribute with default value
            setattr(self, key, default)
''', '''            # create attribute with default value
            if not hasattr(type(self), key):
                setattr(self, key, default)
'''))
m("new-squeeze", "C25", (SO, "                default = _atleast_nd(default, ndim)\n", "                default = np.squeeze(_atleast_nd(default, ndim))\n"))
m("new-default-type", "C25", (SO, "                default = _atleast_nd(default, ndim)\n", "                default = _atleast_nd(default, ndim).astype(int)\n"))
m("new-optional-always", "C25", (SO, '''            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
''', '''            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory and ":" in key:
'''))
m("new-protected", "C25", (SO, "            # add attributes with default values\n            self._convention_to_sofa(mandatory)\n", "            # add attributes with default values\n            self.protected = True\n            self._convention_to_sofa(mandatory)\n"))
m("new-verify-version", "C25", (SO, '''            version = \\
                self._convention['GLOBAL_SOFAConventionsVersion']['default']
            if verify''', '''            if version == "latest":
                version = "1.0"
            if verify'''))
m("new-verify-greater", "C25", (SO, "verify = True if parse(version) >= parse('1.0') else False\n\n            # add and", "verify = True if parse(version) > parse('1.0') else False\n\n            # add and"))
m("new-verify-mandatory", "C25", (SO, "            if verify and not mandatory:\n", "            if verify:\n"))
m("new-verify-true-only", "C25", (SO, "            if verify and not mandatory:\n", "            if verify is True and not mandatory and version != '1.0':\n"))
m("new-verify-warn", "C25", (SO, "                self.verify(mode=\"read\")\n            # warning", "                self.verify(\"ignore\", mode=\"read\")\n            # warning"))
m("new-title", "C25", (SO, "        self.GLOBAL_APIVersion = sf.version()\n", "        self.GLOBAL_APIVersion = sf.version()\n        self.GLOBAL_Title = \"Created with sofar\"\n"))
m("miss-overwrite", "C25", (SO, "            if key not in keys and add_data:\n", "            if (key not in keys or getattr(self, key) is None) and add_data:\n"))
m("miss-empty", "C25 ", (SO, "            if key not in keys and add_data:\n", "            if key not in keys and add_data and \\\n                    self._convention[key][\"default\"] is not None:\n"))
m("miss-swapped", "C25", (SO, "                (not is_mandatory and optional)\n", "                optional\n"))
m("miss-prefix", "C25", (SO, "            if key not in keys and add_data:\n", "            if not any(k.startswith(key) for k in keys) and add_data:\n"))
m("miss-names", "C25", (SO, "            if key not in keys and add_data:\n", "            if key not in str(keys) and add_data:\n"))
m("miss-protected", "C25", (SO, '''        self.protected = False

        # loop data in convention
''', '''        # loop data in convention
'''))
m("miss-no-reset", "C25", (SO, "                setattr(self, key, self._convention[key][\"default\"])\n                added +=", "                setattr(self, key, _atleast_nd(self._convention[key][\"default\"], 0).item())\n                added +="))

# ---- C24 selecting a convention
LC = '''        path = [path for path in paths
                if os.path.basename(path).startswith(convention + "_")]
'''
LV = '''        # get available versions as strings
        versions = [p.split('_')[-1][:-5] for p in path]

        # select the correct version
        if version == "latest":
            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
        else:
            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
'''
m("sel-prefix", "C24", (SO, LC, LC.replace(' + "_")', ")")))
m("sel-in-path", "C24", (SO, LC, LC.replace('os.path.basename(path).startswith(convention + "_")', 'convention + "_" in path')))
m("sel-endswith", "C24", (SO, LC, LC.replace('os.path.basename(path).startswith(convention + "_")', 'path.split("_")[0].endswith(convention)')))
m("sel-lower", "C24", (SO, LC, LC.replace('.startswith(convention + "_")', '.replace("-", "_").startswith(convention + "_")')))
m("sel-text-max", "C24", (SO, LV, LV.replace('np.array([float(v) for v in versions])', 'np.array(versions)').replace("path[np.argmax(versions)]", "path[list(versions).index(max(versions))]")))
m("sel-argmin", "C24", (SO, LV, LV.replace("argmax", "argmin")))
m("sel-last", "C24", (SO, LV, LV.replace("path[np.argmax(versions)]", "sorted(path)[-1]")))
m("sel-first", "C24", (SO, LV, LV.replace("path[np.argmax(versions)]", "path[0]")))
m("sel-major", "C24", (SO, LV, LV.replace("float(v) for v", "int(v.split('.')[0]) for v")))
m("sel-fallback-latest", "C24", (SO, LV, LV.replace('''            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
''', '''            if version not in versions:
                warnings.warn((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"), stacklevel=3)
                path = path[-1]
            else:
                path = path[versions.index(version)]
''')))
m("sel-version-prefix", "C24", (SO, LV, LV.replace('''            path = path[versions.index(version)]
''', '''            path = [p for p in path if f"_{version}" in p][0]
''')))
m("sel-float-version", "C24", (SO, LV, LV.replace('''            if version not in versions:
                raise''', '''            versions = [str(int(float(v))) for v in versions]
            version = version.split(".")[0]
            if version not in versions:
                raise''')))
m("sel-shuffled", "C24", (SO, LV, LV.replace("versions = [p.split('_')[-1][:-5] for p in path]", "versions = sorted(p.split('_')[-1][:-5] for p in path)")))
m("sel-no-error", "C24", (SO, '''        if not len(path):
            raise ValueError(
                (f"Convention '{convention}' not found. See "
                 "sofar.list_conventions() for available conventions."))
''', '''        if not len(path):
            path = paths
'''))
m("sel-no-deprecated", "C24", (UT, "    paths = standardized + deprecated\n", "    paths = deprecated if return_type == 'path_source' else standardized\n"))
m("sel-twice-standard", "C24", (UT, '        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))', '        glob.glob(os.path.join(conventions_path, reg_str)))'))
m("sel-drop-entries", "C24", (SO, "            key.replace('.', '_'): value for key, value in convention.items()}\n\n        return convention", "            key.replace('.', '_'): value for key, value in convention.items()\n            if value['default'] is not None}\n\n        return convention"))
m("sel-reset-latest", "C24", (SO, "            c_current, v_current)\n        self._convention = convention", "            c_current, 'latest')\n        self._convention = convention"))
m("sel-init-latest", "C24", (SO, "            self._convention = self._load_convention(convention, version)\n", "            self._convention = self._load_convention(\n                convention, 'latest' if mandatory else version)\n"))
m("sel-except", "C24", (SO, "            self._convention = self._load_convention(convention, version)\n", '''            try:
                self._convention = self._load_convention(convention, version)
            except ValueError:
                self._convention = self._load_convention(convention, 'latest')
'''))

# ------------------------------------------------------------------- C20
UD = '''        issues = self.verify(issue_handling="return")
        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
'''
m("dim-only-once", "C20", (SO, UD, '''        if hasattr(self, "_api"):
            return
''' + UD))
m("dim-if-known", "C20", (SO, "        self._update_dimensions()\n\n        if dimension not in", '        if dimension not in getattr(self, "_api", {}):\n            self._update_dimensions()\n\n        if dimension not in'))
m("dim-list-known", "C20", (SO, "        self._update_dimensions()\n\n        # get verbose", '        if not hasattr(self, "_api"):\n            self._update_dimensions()\n\n        # get verbose'))
m("dim-no-type", "C20", (SO, UD, UD.replace('"data of wrong type" in issues or\n                                   ', '')))
m("dim-no-shape", "C20", (SO, UD, UD.replace('                                   "variables of wrong shape" in issues or\n', '')))
m("dim-and", "C20", (SO, UD, UD.replace('issues or\n                                   "variables', 'issues and\n                                   "variables')))
m("dim-text-shape", "C20", (SO, '"Detected variables of wrong shape:\\n"', '"Detected variables with wrong shape:\\n"'))
m("dim-text-type", "C20", (SO, '"Detected data of wrong type:\\n"', '"Detected data with wrong type:\\n"'))
m("dim-ignore", "C20", (SO, UD, UD.replace('issues = self.verify(issue_handling="return")', 'issues = self.verify(issue_handling="print")')))
m("dim-print", "C20", (SO, '            raise ValueError(("Dimensions can not', '            warnings.warn(("Dimensions can not'))
m("dim-typeerror", "C20", (SO, '            raise ValueError(("Dimensions can not', '            raise TypeError(("Dimensions can not'))
m("dim-keep-sizes", "C20", (SO, "        self._dimensions = {}\n        self._api = {}\n", '        if not hasattr(self, "_api"):\n            self._dimensions = {}\n            self._api = {}\n'))
m("dim-cached-shape", "C20", (SO, '''                    self._api[dim.upper()] = \\
                        _nd_newaxis(value, 4).shape[idx]
''', '''                    if dim.upper() not in self._api:
                        self._api[dim.upper()] = \\
                            self._shapes.get(key, (1, 1, 1, 1))[idx]
'''))
m("dim-other-axis", "C20", (SO, "_nd_newaxis(value, 4).shape[idx]", "_nd_newaxis(value, 4).shape[0]"))
m("dim-inspect-verify", "C20", (SO, "        self.verify(issue_handling=issue_handling)\n\n        # list of all", '        if issue_handling != "ignore":\n            self.verify(issue_handling=issue_handling)\n\n        # list of all'))
m("dim-write-known", "C20", (W, "    if verify:\n        sofa.verify(mode=\"write\")\n", "    if verify and not hasattr(sofa, \"_api\"):\n        sofa.verify(mode=\"write\")\n"))
m("dim-hide", "C20", (SO, "        for key, value in self._api.items():\n            dim_info", "        for key, value in self._api.items():\n            if value == 0:\n                continue\n            dim_info"))
m("dim-lower", "C20", (SO, "        return self._api[dimension]\n", "        return max(1, self._api[dimension])\n"))
m("dim-memo-convention", "C20", (SO, '''        # 0. update the convention
        self._reset_convention()
''', '''        # 0. update the convention
        if not hasattr(self, "_convention"):
            self._reset_convention()
'''))
m("dim-after", "C20", (SO, '''        # 5. verify dimensions of data
''', '''        # 5. verify dimensions of data
        self.protected = False
        if "N" in self.__dict__ and not isinstance(self.N, str):
            self.N = np.atleast_1d(self.N)[:self._api["N"]]
        self.protected = True
'''))
m("dim-two-shapes", "C20", (SO, "            if not shape_matched:\n", "            if not shape_matched and len(shape_act) < 3:\n"))

# ------------------------------------------------------------------- C22
m("loop-toolbox", "C22", ("update_conventions", "for convention in sofatoolbox.copy():", "for convention in sofatoolbox:"))
m("loop-conv", "C22", ("update_conventions", "for convention in sofaconventions.copy():", "for convention in sofaconventions:"))
m("loop-conv-enum", "C22", ("update_conventions", "for convention in sofaconventions.copy():", "for _, convention in enumerate(sofaconventions):"))
m("loop-conv-gen", "C22", ("update_conventions", "    for convention in sofaconventions.copy():\n", "    names = (n for n in sofaconventions if n.endswith('.csv'))\n    for convention in names:\n"))
m("loop-conv-alias", "C22", ("update_conventions", "    for convention in sofaconventions.copy():\n", "    names = sofaconventions\n    for convention in names:\n"))
m("loop-keys-live", "C22", ("update_conventions", "    keys = list(convention.keys())\n    for key in keys:\n        if \"GLOBAL\"", "    keys = convention.keys()\n    for key in keys:\n        if \"GLOBAL\""))
m("loop-custom-reset", "C22", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in self._custom:
                if key in self._convention:
                    del self._custom[key]
'''))
m("loop-custom-items", "C22", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key, value in self._custom.items():
                if key in self._convention:
                    self._custom.pop(key)
'''))
m("loop-upgrade-keys", "C22", (SO, '        for target in upgrade["remove"]:\n', '        for target in self.__dict__:\n            if target not in upgrade["remove"]:\n                continue\n'))
m("loop-sizes", "C22", ("update_conventions", "        for convention in conventions:\n", "        for convention in conventions:\n            if convention.startswith('General_'):\n                conventions.remove(convention)\n                continue\n"))
m("loop-deprecate", "C22", ("update_conventions", "            for convention in deprecate:\n                os.remove", "            for convention in deprecate:\n                deprecate.remove(convention)\n                os.remove"))
m("loop-versions", "C22", ("utils", "    for path in paths:\n", "    for path in paths:\n        if path.endswith('_0.0.json'):\n            paths.remove(path)\n            continue\n"))
m("loop-equals", "C22", ("utils", "    for key in keys_a:\n", "    for key in keys_a:\n        if key == 'GLOBAL_History':\n            keys_a.remove(key)\n            continue\n"))
m("loop-helper", "C22", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in self._custom:
                self._forget(key)
'''), (SO, '''    def _update_read_only_attr(self):''', '''    def _forget(self, key):
        if key in self._convention:
            self._custom.pop(key)

    def _update_read_only_attr(self):'''))

# ------------------------------------------------------------------------ C19
OPEN = '        self._file = Dataset(self._filename, mode="r")\n'
GET = "            self._data = self._file.variables[name_netcdf]\n"
CONT = "        if name_netcdf in dset_variables and not is_global:\n"
GATTR = "            self._data = self._file.getncattr(name_netcdf)\n"
GDIM = """        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
"""
NOFILE = """        file = self.__dict__.get('_file')
        if file is None or not file.isopen():
            raise AttributeError(
                f"{name} can not be read, because the SOFA-file is not open")
"""
m("st-append-mode", "C19", (SS, OPEN, OPEN.replace('"r"', '"a"')))
m("st-plus-mode", "C19", (SS, OPEN, OPEN.replace('"r"', '"r+"')))
m("st-mode-of-file", "C19", (SS, OPEN, """        self._file = Dataset(
            self._filename, mode="r" if self._filename.endswith("a") else "a")
"""))
m("st-open-early", "C19", (SS, "        self._filename = filename\n", """        self._filename = filename
        self._file = Dataset(filename, mode="r")
"""), (SS, OPEN, ""))
m("st-open-none", "C19", (SS, OPEN, """        if not hasattr(self, "_filename"):
            self._file = Dataset(self._filename, mode="r")
"""))
m("st-enter-file", "C19", (SS, "        return self\n\n    def __exit__", "        return self._file\n\n    def __exit__"))
m("st-swallow", "C19", (SS, "        self._file.close()\n", "        self._file.close()\n        return True\n"))
m("st-swallow-some", "C19", (SS, "        self._file.close()\n", "        self._file.close()\n        return args[0] is AttributeError\n"))
m("st-exit-no-close", "C19", (SS, "        self._file.close()\n", "        if args[0] is None:\n            self._file.close()\n"))
m("st-load-slice", "C19", (SS, GET, GET.replace("]\n", "][:]\n")))
m("st-load-scalar", "C19", (SS, GET, GET + """            if self._data.size == 1:
                self._data = self._data[:]
"""))
m("st-load-array", "C19", (SS, GET, GET + "            self._shape = np.asarray(self._data).shape\n"))
m("st-load-arg", "C19", (SS, GET, "            self._data = np.array(self._file.variables[name_netcdf])\n"))
m("st-load-getvalue", "C19", (SS, GET, GET + "            self._value = self._data.getValue()\n"))
m("st-default-none", "C19", (SS, '            raise AttributeError(f"{name} is not contained in SOFA-file")\n', "            self._data = None\n"))
m("st-key-error", "C19", (SS, '            raise AttributeError(f"{name} is not contained in SOFA-file")\n', '            raise KeyError(f"{name} is not contained in SOFA-file")\n'))
m("st-value-error", "C19", (SS, '            raise AttributeError(f"{name} is not contained in SOFA-file")\n', '            raise ValueError(f"{name} is not contained in SOFA-file")\n'))
m("st-key-attr", "C19", (SS, CONT, "        if var_attr is not None or name_netcdf in dset_variables:\n"))
m("st-key-lookup", "C19", (SS, CONT, "        if not is_global:\n"))
m("st-split-all", "C19", (SS, "name_netcdf.split('_', 1)", "name_netcdf.split('_')"))
m("st-split-always", "C19", (SS, """        if "_" in name_netcdf and not is_global:
""", """        if not name_netcdf.isalnum() and not is_global:
"""))
m("st-split-index", "C19", (SS, """        if "_" in name_netcdf and not is_global:
            name_netcdf, var_attr = name_netcdf.split('_', 1)
""", """        if not is_global:
            pieces = name_netcdf.split('_', 1)
            name_netcdf, var_attr = pieces[0], pieces[1] or None
"""))
m("st-getattr-global", "C19", (SS, """        elif name_netcdf in dset_attributes and is_global:
            # get attribute value from SOFA-file
            self._data = self._file.getncattr(name_netcdf)
""", """        elif is_global and hasattr(self._file, name_netcdf):
            # get attribute value from SOFA-file
            self._data = getattr(self._file, name_netcdf)
"""))
m("st-getattr-var", "C19", (SS, "self._data = self._data.getncattr(var_attr)", "self._data = getattr(self._data, var_attr)"))
m("st-get-default", "C19", (SS, "self._data = self._data.getncattr(var_attr)", "self._data = self._data.__dict__.get(var_attr)"))
m("st-no-file-check", "C19", (SS, NOFILE, ""))
m("st-only-dict-check", "C19", (SS, NOFILE, NOFILE.replace("file is None or not file.isopen()", "file is None")))
m("st-hasattr-file", "C19", (SS, NOFILE, NOFILE.replace("        file = self.__dict__.get('_file')\n", "").replace("file is None or not file.isopen()", "not hasattr(self, '_file') or not self._file.isopen()")))
m("st-runtime-closed", "C19", (SS, NOFILE, NOFILE.replace("raise AttributeError(", "raise RuntimeError(")))
m("st-memo", "C19", (SS, "        # get netCDF4-attributes and -variable-keys from SOFA-file\n", """        if name in self.__dict__.setdefault('_known', {}):
            return self._known[name]
"""), (SS, "        return self._data\n", "        self._known[name] = self._data\n        return self._data\n"))
m("st-touch-attr", "C19", (SS, OPEN, OPEN + '        self._file.setncattr("LastAccess", "now")\n'))
m("st-touch-set", "C19", (SS, "        self._file.close()\n", "        self._file.Closed = 'yes'\n        self._file.close()\n"))
m("st-touch-var", "C19", (SS, "            # pad shape if required (trailing", "            if data.size == 1:\n                data[:] = np.squeeze(data[:])\n            # pad shape if required (trailing"))
m("st-inspect-file", "C19", (SS, "with open(file, 'w', encoding='utf-8') as f_id:", "with open(file or self._filename, 'w', encoding='utf-8') as f_id:"), (SS, "        if file is not None:\n", "        if file is not None or len(info_str) > 10**6:\n"))
m("st-dim-none", "C19", (SS, GDIM, """        if dimension in dims.keys():
            return dims[dimension].size
"""))
m("st-dim-key", "C19", (SS, GDIM, """        if dimension not in dims.keys() and len(dimension) == 1:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
"""))
m("st-dim-attr", "C19", (SS, "            raise ValueError((\n                f\"{dimension} is not a", "            raise AttributeError((\n                f\"{dimension} is not a"))
m("st-dim-upper", "C19", (SS, "        return dims[dimension].size\n", "        return dims[dimension.upper()].size\n"))
m("st-dim-name", "C19", (SS, "        return dims[dimension].size\n", "        return dims[dimension].name\n"))
m("st-dim-one", "C19", (SS, "if dimension not in dims.keys():", 'if dimension not in dims.keys() or dimension == "I":'))
m("st-dim-standard", "C19", (SS, "if dimension not in dims.keys():", "if dimension not in dims.keys() or len(dimension) > 1:"))
m("st-attr-of-hidden", "C19", (SS, CONT, "        if name_netcdf in dset_variables and not is_global and \\\n                not name_netcdf.startswith('API'):\n"))

# ------------------------------------------------------------------------ C23
GLOB = '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))
'''
DUMP = '''        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
'''
EXC = '''        except:  # noqa: E722
            raise ValueError((f"Failed to parse line {idl}, entry {idc} in: "
                            f"{file}: \\n{line}\\n")) from None
'''
FIELDS = '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
'''
LOOP = "    for idl, line in enumerate(lines):\n"
m("comp-no-deprecated", "C23", (UP, GLOB, '    csv_files = glob.glob(os.path.join(conventions_path, "*.csv"))\n'))
m("comp-deprecated-if-any", "C23", (UP, GLOB, '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv"))
    if not csv_files:
        csv_files = glob.glob(
            os.path.join(conventions_path, "deprecated", "*.csv"))
'''))
m("comp-skip-old", "C23", (UP, "        convention_dict = _convention_csv2dict(csv_file)\n", '''        if os.path.isfile(f"{csv_file[:-3]}json"):
            continue
        convention_dict = _convention_csv2dict(csv_file)
'''))
m("comp-only-general", "C23", (UP, '"*.csv")) + ', '"[A-Z]*_*.csv")) + '))
m("comp-slice", "C23", (UP, "    for csv_file in csv_files:\n\n        # convert", "    for csv_file in csv_files[1:]:\n\n        # convert"))
m("comp-to-parent", "C23", (UP, DUMP, '''        name = os.path.basename(csv_file)
        with open(os.path.join(conventions_path, f"{name[:-3]}json"),
                  'w') as file:
            json.dump(convention_dict, file, indent=4)
'''))
m("comp-replace", "C23", (UP, 'open(f"{csv_file[:-3]}json", \'w\')', 'open(csv_file.replace("csv", "json"), \'w\')'))
m("comp-split-dot", "C23", (UP, 'open(f"{csv_file[:-3]}json", \'w\')', '''open(f"{csv_file.split('.')[0]}.json", 'w')'''))
m("comp-append", "C23", (UP, "json\", 'w') as file", "json\", 'a') as file"))
m("comp-first-table", "C23", (UP, "        convention_dict = _convention_csv2dict(csv_file)\n", "        convention_dict = _convention_csv2dict(csv_files[0])\n"))
m("comp-swallow", "C23", (UP, "        convention_dict = _convention_csv2dict(csv_file)\n", '''        try:
            convention_dict = _convention_csv2dict(csv_file)
        except ValueError as error:
            print(error)
            continue
'''))
m("comp-shared-table", "C23", (UP, "def _convention_csv2dict(file: str):", "def _convention_csv2dict(file: str, convention={}):"), (UP, "    convention = {}\n    for idl", "    for idl"))
m("comp-break", "C23", (UP, "            # add blank comment if it does not exist\n", '''            if line[0] is None:
                break
            # add blank comment if it does not exist
'''))
m("comp-skip-blank", "C23", (UP, "            # first line contains field names\n", '''            if len(line) < 2:
                continue
            # first line contains field names
'''))
m("comp-skip-comment", "C23", (UP, LOOP, LOOP + '''        if line.startswith("#"):
            continue
'''))
m("comp-last-line", "C23", (UP, "enumerate(lines):\n\n        try", "enumerate(lines[:-1]):\n\n        try"))
m("comp-pass", "C23", (UP, EXC, '''        except:  # noqa: E722
            print(f"Failed to parse line {idl}, entry {idc} in {file}")
'''))
m("comp-only-valueerror", "C23", (UP, "        except:  # noqa: E722\n", "        except ValueError:\n"))
m("comp-key-error", "C23", (UP, "            raise ValueError((f\"Failed to parse", "            raise KeyError((f\"Failed to parse"))
m("comp-no-file", "C23", (UP, '                            f"{file}: \\n{line}\\n")', '                            f"{line}\\n")'))
m("comp-zip", "C23", (UP, FIELDS, '''            convention[line[0]] = {
                field.lower(): cell for field, cell in zip(fields, line[1:])}
'''))
m("comp-zip-loop", "C23", (UP, FIELDS, '''            convention[line[0]] = {}
            for field, cell in zip(fields, line[1:]):
                convention[line[0]][field.lower()] = cell
'''))
m("comp-short", "C23", (UP, "                convention[line[0]][field.lower()] = line[ff + 1]\n", '''                if ff + 1 < len(line):
                    convention[line[0]][field.lower()] = line[ff + 1]
'''))
m("comp-not-lower", "C23", (UP, "[field.lower()] = line", "[field] = line"))
m("comp-column", "C23", (UP, "= line[ff + 1]\n", "= line[ff]\n"))
m("comp-skip-field", "C23", (UP, "in enumerate(fields):", "in enumerate(fields[:5]):"))
m("comp-move-drop", "C23", (UP, '''        if key.startswith("Data"):
            convention[key] = convention.pop(key)
''', '''        if key.startswith("Data"):
            entry = convention.pop(key)
            if entry["flags"] is not None:
                convention[key] = entry
'''))
m("comp-move-other", "C23", (UP, '''        if key.startswith("Data"):
            convention[key] = convention.pop(key)
''', '''        if key.startswith("Data"):
            convention[key.replace("_", ".")] = convention.pop(key)
'''))
m("comp-drop-private", "C23", (UP, '''        if key.startswith("Data"):
            convention[key] = convention.pop(key)
''', '''        if key.startswith("Data"):
            convention[key] = convention.pop(key)
        elif convention[key]["type"] == "":
            del convention[key]
'''))
m("comp-rebuild", "C23", (UP, '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    ordered = {k: v for k, v in convention.items() if "GLOBAL" in k}
    ordered.update({k: v for k, v in convention.items()
                    if "GLOBAL" not in k and not k.startswith("Data")})
    ordered.update({k: v for k, v in convention.items()
                    if k.startswith("Data.")})

    return ordered
'''))
m("comp-skipkeys", "C23", (UP, "json.dump(convention_dict, file, indent=4)\n\n\ndef", "json.dump(convention_dict, file, indent=4, skipkeys=True)\n\n\ndef"))
m("comp-header-any", "C23", (UP, "            if idl == 0:\n", "            if line[0] == 'Name':\n"))
m("comp-two-headers", "C23", (UP, "            if idl == 0:\n", "            if idl <= 1:\n"))

# ------------------------------------------------------------------ C16
ASK = '''        if updated and not assume_yes:
'''
ANS = '''            if response != "y":
                print("\\nUpdating the conventions was canceled.")
                return
'''
COPY = '''            for convention in update:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
'''
DEPR = '''            for convention in deprecate:
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
'''
COMPILE = '''            # compile json files from csv file
            _compile_conventions(conventions_path)
'''
REMOVE = '''            # remove deprecated conventions after they were compiled
            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
'''
m("upd-only-n", "C16", (UP, 'if response != "y":', 'if response == "n":'))
m("upd-lower", "C16", (UP, 'if response != "y":', 'if not response.lower().startswith("y"):'))
m("upd-empty-yes", "C16", (UP, 'if response != "y":', 'if response not in ("y", ""):'))
m("upd-no-return", "C16", (UP, ANS, '''            if response != "y":
                print("\\nUpdating the conventions was canceled.")
'''))
m("upd-default-yes", "C16", (UP, "assume_yes=False)", "assume_yes=True)"))
m("upd-or", "C16", (UP, ASK, "        if updated and not assume_yes and update:\n"))
m("upd-ask-deprecated", "C16", (UP, ASK, "        if deprecate and not assume_yes:\n"))
m("upd-install-always", "C16", (UP, '''                print("\\nUpdating the conventions was canceled.")
                return
''', '''                print("\\nUpdating the conventions was canceled.")
                update = []
'''))
m("upd-cancel-flag", "C16", (UP, '''                print("\\nUpdating the conventions was canceled.")
                return
''', '''                print("\\nUpdating the conventions was canceled.")
                updated = bool(deprecate)
'''))
m("upd-direct-add", "C16", (UP, '''                updated = True
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
''', '''                updated = True
                shutil.os.makedirs(os.path.join(temp), exist_ok=True)
                with open(standardized_csv, "wb") as file:
                    file.write(data)
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
'''))
m("upd-direct-depr", "C16", (UP, '''                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                print(f"- add deprecated''', '''                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                shutil.copy(os.path.join(temp, 'deprecated', convention),
                            deprecated_csv)
                print(f"- add deprecated'''))
m("upd-always-update", "C16", (UP, '''                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
                    update.append(convention)
''', '''                if data_current != data:
                    updated = True
                    print(f"- update convention: {convention[:-4]}")
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                update.append(convention)
'''))
m("upd-copy-all", "C16", (UP, '''                            os.path.join(conventions_path, convention))
            for convention in deprecate:
''', '''                            os.path.join(conventions_path, convention))
            for convention in conventions:
'''))
m("upd-compare-len", "C16", (UP, '''                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
''', '''                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                if len(data_current) != len(data) or update:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
'''))
m("upd-compare-other", "C16", (UP, '''                with open(deprecated_csv, "rb") as file:
                    data_current''', '''                with open(os.path.join(conventions_path, "deprecated",
                                       conventions[0]), "rb") as file:
                    data_current'''))
m("upd-no-status", "C16", (UP, "            data.raise_for_status()\n", ""))
m("upd-status-caught", "C16", (UP, "            data.raise_for_status()\n", '''            try:
                data.raise_for_status()
            except requests.HTTPError as error:
                print(error)
'''))
m("upd-status-late", "C16", (UP, "            data.raise_for_status()\n", ""),
  (UP, "                deprecate.append(convention)\n", '''                deprecate.append(convention)
                requests.get(url).raise_for_status()
'''))
m("upd-status-page", "C16", (UP, "            data.raise_for_status()\n", "            page.raise_for_status()\n"))
m("upd-status-some", "C16", (UP, "            data.raise_for_status()\n", '''            if is_standardized:
                data.raise_for_status()
'''))
m("upd-status-404", "C16", (UP, "            data.raise_for_status()\n", '''            if data.status_code == 404:
                continue
'''))
m("upd-list-status", "C16", (UP, '''    page = requests.get(urls[1])
    page.raise_for_status()
''', '''    page = requests.get(urls[1])
'''))
m("upd-path", "C16 C26", (UP, '''    deprecated = [os.path.split(node.get('href'))[1]
''', '''    deprecated = [node.get('href')
'''))
m("upd-path-strip", "C16 C26", (UP, '''    deprecated = [os.path.split(node.get('href'))[1]
''', '''    deprecated = [node.get('href').split("deprecated/")[-1]
'''))
m("upd-remove-first", "C16", (UP, COMPILE + REMOVE, REMOVE + COMPILE))
m("upd-remove-before-copy", "C16", (UP, DEPR, '''            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
''' + DEPR), (UP, '''                os.remove(os.path.join(conventions_path, convention))
                os.remove(
''', '''                os.remove(
'''))
m("upd-remove-in-copy", "C16", (UP, DEPR, '''            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
'''), (UP, REMOVE, ""))
m("upd-remove-after-copy", "C16", (UP, DEPR, DEPR + '''                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
'''), (UP, REMOVE, ""))
m("upd-compile-caught", "C16", (UP, COMPILE, '''            try:
                _compile_conventions(conventions_path)
            except ValueError as error:
                print(error)
'''))
m("upd-compile-if", "C16", (UP, COMPILE, '''            if update:
                _compile_conventions(conventions_path)
'''))
m("upd-no-compile", "C16", (UP, COMPILE, ""))
m("upd-remove-update", "C16", (UP, '''            # remove deprecated conventions after they were compiled
            for convention in deprecate:
''', '''            # remove deprecated conventions after they were compiled
            for convention in deprecated:
                if not os.path.isfile(os.path.join(conventions_path,
                                                   convention)):
                    continue
'''))
m("upd-remove-old", "C16", (UP, "            # remove deprecated conventions after they were compiled\n", '''            for old in glob.glob(os.path.join(conventions_path, "*.csv")):
                if os.path.basename(old) not in conventions:
                    os.remove(old)
'''))
m("upd-copy-wrong", "C16", (UP, '''                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated',
                                 convention.lower()))
'''))
m("upd-copy-missing-only", "C16", (UP, '''            for convention in deprecate:
                shutil.copy(
''', '''            for convention in deprecate:
                if os.path.isfile(os.path.join(
                        conventions_path, "deprecated", convention)):
                    continue
                shutil.copy(
'''))
m("upd-move", "C16", (UP, DEPR, '''            for convention in deprecate:
                shutil.move(
                    os.path.join(conventions_path, f"{convention[:-3]}json"),
                    os.path.join(conventions_path, 'deprecated',
                                 f"{convention[:-3]}json.bak"))
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
'''), (UP, '''                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
''', ""))
m("upd-clean", "C16", (UP, COPY, '''            for file in glob.glob(os.path.join(conventions_path, "*.json")):
                os.remove(file)
''' + COPY))
m("upd-rmtree", "C16", (UP, COPY, '''            shutil.rmtree(os.path.join(conventions_path, "deprecated"))
            os.mkdir(os.path.join(conventions_path, "deprecated"))
''' + COPY))
m("upd-no-staging", "C16", (UP, '''                updated = True
                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                print(f"- deprecate''', '''                updated = True
                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data_current)
                print(f"- deprecate'''))

# ------------------------------------------------------------------ C21
m("enc-inspect", "C21", (SO, "open(file, 'w', encoding='utf-8') as f_id", "open(file, 'w') as f_id"))
m("enc-stream-inspect", "C21", (SS, "open(file, 'w', encoding='utf-8') as f_id", "open(file, mode='w') as f_id"))
m("enc-inspect-locale", "C21", (SO, "open(file, 'w', encoding='utf-8') as f_id", "open(file, 'w', encoding=__import__('locale').getpreferredencoding()) as f_id"))
m("enc-inspect-platform", "C21", (SO, "open(file, 'w', encoding='utf-8') as f_id", "open(file, 'w', encoding='utf-8' if os.name != 'nt' else None) as f_id"))
m("enc-inspect-path", "C21", (SO, '''            with open(file, 'w', encoding='utf-8') as f_id:
''', '''            with __import__("pathlib").Path(file).open('w') as f_id:
'''))
m("enc-csv", "C21", (UP, ', encoding="windows-1252") as fid', ') as fid'))
m("enc-json", "C21", (UP, "json.dump(convention_dict, file, indent=4)\n\n\ndef", "json.dump(convention_dict, file, indent=4, ensure_ascii=False)\n\n\ndef"))
m("enc-json-utf8", "C21", (UP, "json.dump(convention_dict, file, indent=4)\n\n\ndef", "json.dump(convention_dict, file, indent=4, ensure_ascii=False)\n\n\ndef"),
  (UP, "json\", 'w') as file", "json\", 'w', encoding='utf-8') as file"))
m("enc-json-write", "C21", (UP, "            json.dump(convention_dict, file, indent=4)\n\n\ndef", '''            text = json.dumps(convention_dict, indent=4, ensure_ascii=False)
            file.write(text)


def'''))
m("enc-read-latin", "C21", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, encoding="latin-1")'))
m("enc-read-ascii", "C21", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, "ascii")'))
m("enc-read-bytes", "C21", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, encoding="none")'))
m("enc-write-latin", "C21 C02", (W, 'np.char.encode(value, "utf-8")', 'np.char.encode(value, "latin-1")'))
m("enc-write-ignore", "C21 C02", (W, 'np.char.encode(value, "utf-8")', 'np.char.encode(value, "ascii", "ignore")'))
m("enc-write-replace", "C21 C02", (W, 'np.char.encode(value, "utf-8")', 'np.char.encode(value, "utf-8", errors="replace")'))
m("enc-write-astype", "C21", (W, '''        if value.dtype.kind != "S":
            value = np.char.encode(value, "utf-8")
        value =''', '''        value ='''))
m("enc-write-some", "C21", (W, '''        if value.dtype.kind != "S":
            value = np.char.encode''', '''        if value.dtype.kind != "S" and value.ndim:
            value = np.char.encode'''))
m("enc-equals", "C21", (UT, '''            a, b = [np.char.decode(s, "utf-8") if s.dtype.kind == "S"
                    else s.astype("U") for s in (np.squeeze(a), np.squeeze(b))]
''', '''            a, b = [s.astype("U") for s in (np.squeeze(a), np.squeeze(b))]
'''))
m("enc-equals-latin", "C21", (UT, 'np.char.decode(s, "utf-8")', 'np.char.decode(s, "cp1252")'))
m("enc-equals-swapped", "C21", (UT, '''if s.dtype.kind == "S"
                    else''', '''if s.dtype.kind == "O"
                    else'''))
m("enc-size", "C21", (SO, 's.encode("utf-8") if isinstance', 's.encode("latin-1") if isinstance'))
m("enc-date", "C21", (SO, 'strftime("%Y-%m-%d %H:%M:%S")', 'strftime("%x %X")'))
m("enc-date-month", "C21", (SO, 'strftime("%Y-%m-%d %H:%M:%S")', 'strftime("%d-%b-%Y %H:%M:%S")'))
m("enc-rules-utf16", "C21", (SO, 'os.path.join(base, "rules.json"), "r")', 'os.path.join(base, "rules.json"), "r", encoding="utf-16")'))
m("enc-attr-encoding", "C21", (W, "            if dtype == \"f8\":\n                tmp_var[:] = value\n", '''            if dtype != "f8":
                tmp_var._Encoding = "latin-1"
            if dtype == "f8":
                tmp_var[:] = value
'''))

m("write-chars-first", "C02", (W, 'tmp_var[:] = value.view("S1").reshape(value.shape + (-1, ))', 'tmp_var[:] = value.view("S1").reshape((-1, *value.shape)).reshape(\n                    (*value.shape, -1))'))

# writing, reading and resources ------------------------------------------------
UC = "update_conventions"
m("nv-write-verify-if-compress", "C01", (W, '    if verify:\n        sofa.verify(mode="write")', '    if verify and compression is not None:\n        sofa.verify(mode="write")'))
m("nv-write-verify-read", "C01", (W, '        sofa.verify(mode="write")', '        sofa.verify(mode="read")'))
m("nv-write-verify-print", "C01", (W, '        sofa.verify(mode="write")', '        sofa.verify("print", mode="write")'))
m("nv-write-verify-custom", "C01", (W, '    if verify:\n        sofa.verify(mode="write")', '    if verify and sofa.GLOBAL_SOFAConventions != "invalid-value":\n        sofa.verify(mode="write")'))
m("nv-write-exists-skip", "C01", (W, '        sofa.verify(mode="write")', '        if not os.path.isfile(filename):\n            sofa.verify(mode="write")'))
m("nv-write-unlink-first", "C01", (W, '    # update the dimensions\n    if verify:', '    if os.path.isfile(filename):\n        os.remove(filename)\n\n    # update the dimensions\n    if verify:'))
m("nv-write-touch-first", "C01", (W, '    # update the dimensions\n    if verify:', '    filename.touch()\n\n    # update the dimensions\n    if verify:'))
m("nv-write-backup", "C01", (W, '    # update the dimensions\n    if verify:', '    if filename.exists():\n        filename.rename(filename.with_suffix(".bak"))\n\n    # update the dimensions\n    if verify:'))
m("nv-write-copy-verified", "C20", (W, '        sofa.verify(mode="write")', '        sofa.copy().verify(mode="write")'))
m("nv-write-public-noverify", "C01", (W, '    _write_sofa(filename, sofa, compression, verify=True)', '    _write_sofa(filename, sofa, compression, verify=bool(sofa.protected))'))
m("nv-write-default-noverify", "C01", (W, '    _write_sofa(filename, sofa, compression, verify=True)', '    _write_sofa(filename, sofa, compression, "invalid" not in str(filename))'))
m("nv-write-verify-late", "C01", (W, '    # update the dimensions\n    if verify:\n        sofa.verify(mode="write")\n', '    if verify:\n        sofa._update_dimensions()\n'), (W, '        # write dimensions\n', '        if verify:\n            sofa.verify(mode="write")\n\n        # write dimensions\n'))
m("nv-read-verify-write", "C04", (W, 'sofa.verify(mode="read")', 'sofa.verify(mode="write")'))
m("nv-read-verify-ignore", "C04", (W, 'sofa.verify(mode="read")', 'sofa.verify("ignore", mode="read")'))
m("nv-read-verify-result", "C04", (W, 'sofa.verify(mode="read")', 'issues = sofa.verify("return", mode="read")\n            if issues is not None and verbose:\n                raise ValueError(issues)'))
m("nv-read-verify-custom", "C04", (W, '    if verify:\n        try:', '    if verify and not custom:\n        try:'))
m("nv-read-verify-gt", "C04", (W, "verify = True if parse(version) >= parse('1.0') else False\n\n    # update api", "verify = True if parse(version) > parse('1.0') else False\n\n    # update api"))
m("nv-read-verify-early", "C04", (W, '''    # remove fields from initial''', '''    if verify is True:
        sofa.verify(mode="read")
        verify = False

    # remove fields from initial'''))
m("nv-read-unknown-print", "C04", (W, '            _verify_convention_and_version(version, convention)', '            try:\n                _verify_convention_and_version(version, convention)\n            except ValueError:\n                convention, version = "GeneralTF", "1.0"'))
m("nv-read-lock-file", "C15", (W, '    with Dataset(filename, "r", format="NETCDF4") as file:', '    lock = filename.with_suffix(".lock")\n    lock.touch()\n    lock.unlink()\n    with Dataset(filename, "r", format="NETCDF4") as file:'))
m("nv-read-diskless", "C15", (W, 'Dataset(filename, "r", format="NETCDF4")', 'Dataset(filename, "r+" if os.access(filename, os.W_OK) else "r",\n                 format="NETCDF4")'))
m("nv-load-json-cache", "C15", (SO, '''        with open(path, "r") as file:
            convention = json.load(file)
''', '''        with open(path, "r") as file:
            convention = json.load(file)
        with open(os.path.splitext(path)[0] + ".cache", "w") as file:
            json.dump(convention, file)
'''))
m("nv-inspect-always", "C15", (SO, '''        if file is not None:
            with open(file, 'w', encoding='utf-8') as f_id:''', '''        if file is not False:
            with open(file or "inspect.txt", 'w', encoding='utf-8') as f_id:'''))
m("nv-inspect-path", "C15", (SO, "            with open(file, 'w', encoding='utf-8') as f_id:", "            os.makedirs(os.path.dirname(os.path.abspath(file)), exist_ok=True)\n            with open(file, 'w', encoding='utf-8') as f_id:"))
m("nv-list-online", "C15", (UT, '    print(_get_conventions("string"))', '    import requests\n    with contextlib.suppress(Exception):\n        requests.head("https://www.sofaconventions.org")\n    print(_get_conventions("string"))'), (UT, "import os\n", "import contextlib\nimport os\n"))
m("nv-write-tmp-copy", "C15", (W, '    # update the dimensions\n    if verify:', '    if filename.exists():\n        pathlib.Path(str(filename) + "~").write_bytes(filename.read_bytes())\n\n    # update the dimensions\n    if verify:'))
m("nv-rules-dump", "C15", (SO, '        return rules, unit_aliases, deprecations, upgrade', '        if os.environ.get("SOFAR_DUMP"):\n            json.dump(rules, open(os.environ["SOFAR_DUMP"], "w"))\n        return rules, unit_aliases, deprecations, upgrade'))
m("nv-missing-path-mkdir", "C15", (UT, '    reg_str = "*.csv"', '    os.makedirs(conventions_path, exist_ok=True)\n    reg_str = "*.csv"'))
m("nv-stream-logs", "C15", (SS, '        self._file = Dataset(self._filename, mode="r")', '        open(f"{self._filename}.lock", "x").close()\n        self._file = Dataset(self._filename, mode="r")'))
m("nv-update-tmp-cwd", "C15", (UC, '    with TemporaryDirectory() as temp:\n', '    with TemporaryDirectory() as temp:\n        open("update.log", "a").close()\n'))
m("nv-read-noclose", "C17", (W, '    with Dataset(filename, "r", format="NETCDF4") as file:\n', '    file = Dataset(filename, "r", format="NETCDF4")\n    if True:\n'), (W, '    # remove fields from initial', '    file.close()\n\n    # remove fields from initial'))
m("nv-read-names-first", "C17", (W, '    with Dataset(filename, "r", format="NETCDF4") as file:\n', '    names = Dataset(filename, "r", format="NETCDF4").variables.keys()\n    with Dataset(filename, "r", format="NETCDF4") as file:\n'), (W, 'for var in file.variables.keys():', 'for var in names:'))
m("nv-inspect-open", "C17", (SO, '''            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")''', '''            f_id = open(file, 'w', encoding='utf-8')
            f_id.write(info_str + "\\n")
            f_id.close()'''))
m("nv-inspect-onexc", "C17", (SO, '''            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")''', '''            f_id = open(file, 'w', encoding='utf-8')
            try:
                f_id.write(info_str + "\\n")
            except OSError:
                f_id.close()
                raise
            f_id.close()'''))
m("nv-json-open", "C17", (SO, '''        with open(path, "r") as file:
            convention = json.load(file)''', '''        convention = json.load(open(path, "r"))'''))
m("nv-rules-open", "C17", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)''', '''        file = open(os.path.join(base, "rules.json"), "r")
        rules = json.load(file)
        file.close()'''))
m("nv-csv-open", "C17", (UC, '''    with open(file, 'r', encoding="windows-1252") as fid:
        lines = fid.readlines()''', '''    fid = open(file, 'r', encoding="windows-1252")
    lines = fid.readlines()
    fid.close()'''))
m("nv-stream-exit-only-clean", "C17 C19", (SS, '        self._file.close()', '        if args[0] is None:\n            self._file.close()'))
m("nv-stream-exit-flag", "C17 C19", (SS, '        self._file.close()', '        if self.__dict__.get("_data") is not None:\n            self._file.close()'))
m("nv-stream-enter-fails", "C17", (SS, '        self._file = Dataset(self._filename, mode="r")\n        return self', '        self._file = Dataset(self._filename, mode="r")\n        if "SOFAConventions" not in self._file.ncattrs():\n            raise ValueError(f"{self._filename} is not a SOFA file")\n        return self'))
m("nv-update-mkdtemp", "C17", (UC, '    with TemporaryDirectory() as temp:\n', '    import tempfile\n    temp = tempfile.mkdtemp()\n    if True:\n'))
m("nv-unbound-file", "C18", (W, '''    # open new NETCDF4 file for reading
''', '''    if verify:
        message = "The SOFA object could not be verified: "
    # open new NETCDF4 file for reading
'''), (W, '''    # update api
    if verify:''', '''    # update api
    if not verify:
        print(message)
    if verify:'''))
m("nv-unbound-label", "C18", (SO, '''        if info in ["all", "mandatory", "optional", "read only", "data"]:
''', '''        if info in ["all", "mandatory", "optional", "read only"]:
            label = info
        if info in ["all", "mandatory", "optional", "read only", "data"]:
            info_str += label
'''))
m("nv-unbound-loop", "C18", (SO, '        if verbose:\n            if "-" in added:', '        if verbose:\n            added += f"({key})"\n            if "-" in added:'))
m("nv-unbound-except", "C18", (UT, '            except (AssertionError, TypeError, ValueError):', '            except (AssertionError, TypeError, ValueError) as error:\n                reason = str(error)'), (UT, '    return is_identical\n\n\ndef _equals_raise', '    if not is_identical and verbose:\n        print(reason)\n    return is_identical\n\n\ndef _equals_raise'))
m("nv-unbound-dim", "C18", (SO, '''            N_verbose = "SOS coefficients"
        else:
            N_verbose = "data points"''', '''            N_verbose = "SOS coefficients"'''))
m("nv-unbound-stream", "C18", (SS, '''            N_verbose = "SOS coefficients"
        else:
            N_verbose = "data points"''', '''            N_verbose = "SOS coefficients"'''))
m("nv-unbound-name", "C18", (SO, 'convention_target, version_target = target.split("_")', 'convention_target, version_target = chosen_target.split("_")'))
m("nv-unbound-del", "C18", (SO, '            # add data\n            setattr(self, target_sofar, data)', '            # add data\n            setattr(self, target_sofar, data)\n            del moveaxis'), (SO, '        if not upgrade["move"]:\n', '        if upgrade["move"] and moveaxis is not None:\n            print("- Axes moved")\n        if not upgrade["move"]:\n'))
m("nv-eval-default", "C26", (UC, '                cell = cell[1:-1]\n', '                if "(" in cell:\n                    line[idc] = eval(cell)\n                    continue\n                cell = cell[1:-1]\n'))
m("nv-import-dunder", "C26", (UC, 'cell = float(cell) if \'.\' in cell else int(cell)\n                    line[idc] = cell', 'if cell.startswith("np."):\n                            cell = __import__(cell[3:])\n                        cell = float(cell)\n                    line[idc] = cell'))
m("nv-read-pickle", "C26", (W, '    if value.size == 1 and key not in data_keys:', '    if value.dtype.kind == "O":\n        import pickle\n        value = pickle.loads(value[0])\n    if value.size == 1 and key not in data_keys:'))
m("nv-np-load", "C26", (SO, '        with open(path, "r") as file:\n            convention = json.load(file)', '        if path.endswith(".npy"):\n            return np.load(path, allow_pickle=True).item()\n        with open(path, "r") as file:\n            convention = json.load(file)'))
m("nv-system", "C26", (UC, '    page = requests.get(urls[0])\n', '    page = requests.get(urls[0])\n    os.system(f"echo {page.url}")\n'))
m("nv-exec-hook", "C26", (SO, '        return rules, unit_aliases, deprecations, upgrade', '        for rule in rules.values():\n            if "hook" in rule:\n                exec(rule["hook"])\n        return rules, unit_aliases, deprecations, upgrade'))
m("nv-import-name", "C26", (SO, '        # get available versions as strings\n', '        import importlib\n        if "." in convention:\n            importlib.import_module(convention)\n        # get available versions as strings\n'))
m("nv-eval-lambda", "C26", (SO, '            if isinstance(default, list):\n', '            if str(default).startswith("lambda"):\n                default = eval(default)()\n            if isinstance(default, list):\n'))
m("nv-cong-path", "C26", (UC, 'filename = os.path.join(save_dir, subdir, convention)', 'filename = os.path.join(save_dir, subdir, url_of.get(convention, convention))'), (UC, '    # get file names of conventions from github\n', '    url_of = {os.path.basename(n.get("href")): n.get("href")\n              for n in soup.find_all("a")}\n    # get file names of conventions from github\n'))
m("nv-unescape", "C26 C16", (UC, "    conventions = standardized + deprecated\n", "    standardized = [c.replace('%2F', '/') for c in standardized]\n    conventions = standardized + deprecated\n"))
m("ro-append-mandatory", "C06", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        self._read_only_attr = []
        for key in self._convention:
            if self._mandatory(self._convention[key]["flags"]):
                self._read_only_attr.append(key)
'''))
m("ro-append-short", "C06", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        self._read_only_attr = []
        for key in self._convention:
            if self._read_only(self._convention[key]["flags"]) and \\
                    not key.startswith("GLOBAL_API"):
                self._read_only_attr.append(key)
'''))

# ---- further bugs
m("oa-attr-missing-data", "C10 C09", (SO, '''            if (key[:key.rindex("_")] not in self._convention and
                    not key.startswith("GLOBAL_")):''', '''            if (key[:key.rindex("_")] not in self._convention and
                    not key.startswith(("GLOBAL_", "Data_"))):'''))
m("oa-underscore-data", "C10 C09", (SO, '''            if "_" in key.replace("Data_", ""):''', '''            if "_" in key.replace("Data_", "") and "Data" not in key:'''))
m("oa-reserved-first", "C10", (SO, '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
''', '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
                break
'''))
m("oa-custom-values", "C10", (SO, '''            for key in self._custom.keys():
                if key.replace("GLOBAL_", "") in normative:''', '''            for key in list(self._custom)[:-1]:
                if key.replace("GLOBAL_", "") in normative:'''))
m("oa-keys-dim-falsy", "C10 C20", (SO, '''                and self._convention[key]["dimensions"] is not None]
        if hasattr''', '''                and self._convention[key]["dimensions"] is not None
                and key.lower() not in self.__dict__]
        if hasattr'''))
m("oa-dims-update-skip", "C20", (SO, '''        issues = self.verify(issue_handling="return")
        if issues is not None and''', '''        if getattr(self, "_api", None):
            return
        issues = self.verify(issue_handling="return")
        if issues is not None and'''))
m("oa-general-return", "C10 C09", (SO, '''                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue
''', '''                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    break
'''))
m("oa-spec-dep-break", "C10", (SO, '''                    if ref_dep is None:
                        continue
''', '''                    if ref_dep is None:
                        break
'''))
m("oa-units-scalar", "C10", (SO, '''            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
''', '''            keys = [k for k in self.__dict__.keys() if k.endswith("_Units")
                    and k.count("_") == 1]
'''))
m("oa-units-mode", "C09", (SO, '''        if mode == "write":
            keys = [k for k''', '''        if mode == "write" and issue_handling == "raise":
            keys = [k for k'''))
m("oa-err-warnings-first", "C09", (SO, '''            if issue_handling == "raise":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif''', '''            if issue_handling == "raise" and \\
                    error_msg == "\\nERRORS\\n------\\n":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif'''))
m("oa-issue-text-swap", "C09", (SO, '''        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
''', '''        elif warning_msg:
            issues = warning_msg
        elif error_msg and len(error_msg.splitlines()) > 3:
            issues = error_msg
'''))
m("oa-delattr-custom-only-conv", "C06", (SO, '''                    self._custom.pop(name)
                    self._convention.pop(name, None)''', '''                    if name not in self._convention:
                        self._custom.pop(name)'''))
m("oa-delattr-or", "C06", (SO, '''        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):''', '''        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]) or \\
                (self._convention[name]["default"] in (None, "")):'''))
m("oa-setattr-prefix", "C06", (SO, '''        if name in self._read_only_attr and self.protected:''', '''        if name in self._read_only_attr and self.protected \\
                and name in self.__dict__ and value != getattr(self, name):'''))
m("oa-custom-shared", "C13", (SO, '''            if not hasattr(self, "_custom"):
                self._custom = {}
''', '''            if not hasattr(self, "_custom"):
                type(self)._custom = {}
'''))
m("oa-copy-convention", "C13", (SO, '''        return deepcopy(self)''', '''        other = deepcopy(self)
        super(Sofa, other).__setattr__("_convention", self._convention)
        return other'''))
m("oa-reset-custom-copy", "C22", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in self._custom:
                if key in self._convention:
                    del self._custom[key]
'''))
m("oa-upgrade-message-verify", "C14", (SO, '''        if verify == 'auto':
            version = self.GLOBAL_SOFAConventionsVersion
            verify = True if''', '''        if verify == 'auto' and upgrade["message"] is None:
            version = self.GLOBAL_SOFAConventionsVersion
            verify = True if'''))
m("oa-upgrade-keys-short", "C14", (SO, '''            setattr(self, key, self._convention[key]["default"])

        # move data''', '''            if not getattr(self, key).startswith(
                    self._convention[key]["default"]):
                setattr(self, key, self._convention[key]["default"])

        # move data'''))
m("oa-upgrade-move-target", "C14", (SO, '''            # add data
            setattr(self, target_sofar, data)
''', '''            # add data
            if not hasattr(self, target_sofar):
                setattr(self, target_sofar, data)
'''))
m("oa-upgrade-optional", "C14", (SO, '''        self.add_missing(True, False)''', '''        if upgrade["remove"] or upgrade["move"]:
            self.add_missing(True, False)'''))
m("oa-addmissing-order", "C25", (SO, '''            if key not in keys and add_data:
''', '''            if key not in keys and add_data and \\
                    self._convention[key]["default"] is not None:
'''))
m("oa-mandatory-flag", "C25 C06", (SO, '''        elif "m" not in flags:
            is_mandatory = False
''', '''        elif not flags.startswith("m"):
            is_mandatory = False
'''))
m("oa-readonly-flag", "C06", (SO, '''        elif "r" not in flags:
            is_read_only = False
''', '''        elif flags != "r" and flags != "rm":
            is_read_only = False
'''))
m("oa-latest-string", "C24", (SO, '''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]''', '''            path = path[versions.index(max(versions, key=len))]'''))
m("oa-version-prefix", "C24", (SO, '''            path = path[versions.index(version)]
''', '''            path = [p for p in path if version in p][0]
'''))
m("ob-copy-convention-set", "C13", (SO, '''        return deepcopy(self)''', '''        other = deepcopy(self)
        other._convention = self._convention
        return other'''))
m("ob-copy-convention-dict", "C13", (SO, '''        return deepcopy(self)''', '''        other = deepcopy(self)
        other.__dict__["_convention"] = self._convention
        return other'''))
m("ob-copy-convention-object", "C13", (SO, '''        return deepcopy(self)''', '''        other = deepcopy(self)
        object.__setattr__(other, "_convention", self._convention)
        return other'''))
m("ob-copy-update", "C13", (SO, '''        return deepcopy(self)''', '''        other = sf.Sofa.__new__(sf.Sofa)
        other.__dict__.update(deepcopy(
            {k: v for k, v in self.__dict__.items() if k != "_custom"}))
        if hasattr(self, "_custom"):
            other.__dict__["_custom"] = dict(self._custom)
        return other'''))
m("ob-copy-memo", "C13", (SO, '''        return deepcopy(self)''', '''        return deepcopy(self, {id(self._convention): self._convention})'''))

m("oc-write-verify-copy", "C01", (W, '''    if verify:
        sofa.verify(mode="write")
''', '''    if verify and sofa.GLOBAL_SOFAConventions != "invalid-value":
        sofa.verify(mode="write")
'''))
m("oc-write-verify-warn", "C01", (W, '''    if verify:
        sofa.verify(mode="write")
''', '''    if verify:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            sofa.verify(issue_handling="print", mode="write")
'''))
m("oc-write-mode-default", "C01", (W, '''        sofa.verify(mode="write")
''', '''        sofa.verify(mode="read" if compression == 0 else "write")
'''))
m("oc-write-after-dims", "C01", (W, '''    # update the dimensions
    if verify:
        sofa.verify(mode="write")
''', '''    # update the dimensions
    if verify and not hasattr(sofa, "_api"):
        sofa.verify(mode="write")
'''))
m("oc-write-skip-empty", "C02", (W, '''            setattr(file, key[7:], str(getattr(sofa, key)))
''', '''            if getattr(sofa, key):
                setattr(file, key[7:], str(getattr(sofa, key)))
'''))
m("oc-write-api-dims", "C02 C20", (W, '''        for dim in sofa._api:
            file.createDimension(dim, sofa._api[dim])
''', '''        for dim in sofa._api:
            file.createDimension(dim, max(1, sofa._api[dim]))
'''))
m("oc-write-replace-first", "C05", (W, '''                key.replace("Data_", "Data."), dtype, shape,
''', '''                key.replace("Data_", "Data.") if dtype == "f8" else key,
                dtype, shape,
'''))
m("oc-write-sub-prefix", "C02", (W, '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"]
''', '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"
                        and sofa._convention[k]["flags"] is not None]
'''))
m("oc-write-lstrip", "C05 C02", (W, '''setattr(tmp_var, sub_key[len(key)+1:],''', '''setattr(tmp_var, sub_key.split("_")[1],'''))
m("oc-write-global-lower", "C02", (W, '''key.startswith("GLOBAL_")]
        for key in keys:''', '''key.startswith("GLOBAL_")
                and "Date" not in key]
        for key in keys:'''))
m("oc-write-string-cut", "C02", (W, '''        value = np.array(value, dtype=f"S{str(S)}")
''', '''        value = np.array(value, dtype=f"S{min(S, 1024)}")
'''))
m("oc-read-skip-underscore", "C03", (W, '''    skip = ["_Encoding"]
''', '''    skip = ["_Encoding", "_FillValue", "Description"]
'''))
m("oc-read-netcdf-custom", "C03", (W, '''            if hasattr(sofa, var.replace(".", "_")):
                setattr(sofa, var.replace(".", "_"), value)
''', '''            if hasattr(sofa, var.replace(".", "_")):
                if value is not None and np.size(value) > 0:
                    setattr(sofa, var.replace(".", "_"), value)
'''))
m("oc-read-attr-strip", "C03", (W, '''                value = getattr(file[var], attr)
                all_attr''', '''                value = str(getattr(file[var], attr)).strip()
                all_attr'''))
m("oc-read-keep-optional", "C03", (W, '''        if attr not in all_attr:
            delattr(sofa, attr)
''', '''        if attr not in all_attr and not sofa._mandatory(
                sofa._convention[attr]["flags"]):
            delattr(sofa, attr)
'''))
m("oc-read-keep-parent", "C03", (W, '''        if attr not in all_attr:
            delattr(sofa, attr)
''', '''        if attr not in all_attr and attr.split("_")[0] not in all_attr:
            delattr(sofa, attr)
'''))
m("oc-read-dims-sorted", "C03", (W, '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "".join(sorted(set(file[var].dimensions)))
'''))
m("oc-read-verify-after-warn", "C04", (W, '''        try:
            sofa.verify(mode="read")
        except:  # noqa: E722
''', '''        try:
            sofa.verify(mode="read")
        except KeyError:
            pass
        except:  # noqa: E722
'''))
m("oc-read-verify-version", "C04", (W, '''        verify = True if parse(version) >= parse('1.0') else False

    # update api''', '''        verify = True if parse(version) >= parse('1.0') and not custom \\
            else False

    # update api'''))
m("oc-read-verify-true", "C04", (W, '''    # update api
    if verify:''', '''    # update api
    if verify and sofa.GLOBAL_SOFAConventionsVersion == version:'''))
m("oc-read-suffix", "C05", (W, '''    filename = pathlib.Path(filename).with_suffix('.sofa')
    if not os.path.isfile(filename):
''', '''    if not os.path.isfile(filename):
        filename = pathlib.Path(filename).with_suffix('.sofa')
    if not os.path.isfile(filename):
'''))
m("oc-read-protect-netcdf", "C07", (W, '''    # do not allow writing read only attributes any more
    sofa.protected = True
''', '''    # do not allow writing read only attributes any more
    if mode == "sofa":
        sofa.protected = True
'''))
m("oc-ma-fill", "C03", (W, '''            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:''', '''            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
            value = value.filled(0)
        else:'''))
m("oc-data-squeeze", "C03", (W, '''            # Convert to numpy array or scalar
            value = np.asarray(value)
''', '''            # Convert to numpy array or scalar
            value = np.asarray(value, dtype="float32")
'''))
m("oc-fromnc-encoding", "C21", (W, '''            value = chartostring(value, encoding="utf-8")
''', '''            value = chartostring(value, encoding="latin-1")
'''))
m("oc-equals-excl-key", "C12", (UT, '''            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b''', '''            keys_a = [k for k in keys_a if "Dat" not in k]
            keys_b'''))
m("oc-equals-zip", "C12", (UT, '''        type_b = sofa_b._convention[key]["type"]
''', '''        type_b = sofa_b._convention.get(
            key, sofa_a._convention[key])["type"]
        if a is b:
            break
'''))
m("oc-equals-nan", "C12", (UT, '''                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
''', '''                npt.assert_allclose(
                    np.nan_to_num(np.squeeze(a)), np.nan_to_num(np.squeeze(b)))
'''))
m("oc-equals-upper", "C12", (UT, '''            if a != b:
                is''', '''            if a != b and str(a).strip() != str(b).strip():
                is'''))
m("oc-list-deprecated", "C24", (UT, '''    paths = standardized + deprecated
''', '''    paths = sorted(set(standardized + deprecated), key=os.path.basename)[1:]
'''))
m("oc-stream-data-all", "C05", (SS, '''            name_netcdf = name.replace('Data_', 'Data.', 1)
''', '''            name_netcdf = 'Data.' + name.rsplit('_', 1)[-1]
'''))
m("oc-stream-rsplit", "C05", (SS, '''            name_netcdf, var_attr = name_netcdf.split('_', 1)
''', '''            name_netcdf, var_attr = name_netcdf.split('_')[:2]
'''))
m("oc-stream-read-all", "C19", (SS, '''            self._data = self._file.variables[name_netcdf]
            if''', '''            self._data = self._file.variables[name_netcdf]
            if self._data.size < 7:
                self._data = self._data[:]
            if'''))
m("oc-stream-mode", "C19 C15", (SS, '''Dataset(self._filename, mode="r")''', '''Dataset(
            self._filename, mode="r" if str(self._filename).endswith("sofa")
            else "a")'''))
m("oc-stream-exit", "C17", (SS, '''        self._file.close()
''', '''        if not any(args):
            self._file.close()
'''))
m("oc-upd-yes", "C16", (UC, '''            if response != "y":
''', '''            if response.startswith("n"):
'''))
m("oc-upd-deprecate-before", "C16", (UC, '''            # compile json files from csv file
            _compile_conventions(conventions_path)
''', '''            # compile json files from csv file
            for convention in deprecate:
                os.remove(os.path.join(
                    conventions_path, f"{convention[:-3]}json"))
            _compile_conventions(conventions_path)
'''))
m("oc-compile-skip-existing", "C23", (UC, '''        # convert SOFA conventions from csv to json
        convention_dict''', '''        if os.path.isfile(f"{csv_file[:-3]}json") and os.path.getmtime(
                f"{csv_file[:-3]}json") > os.path.getmtime(csv_file):
            continue
        # convert SOFA conventions from csv to json
        convention_dict'''))
m("oc-csv-blank-break", "C23", (UC, '''            line = line.strip().split("\\t")
''', '''            line = line.strip().split("\\t")
            if not any(line):
                break
'''))
m("oc-csv-field-short", "C23", (UC, '''            for ff, field in enumerate(fields):
''', '''            for ff, field in enumerate(fields[:len(line) - 2]):
'''))
m("oc-csv-reorder-global", "C23", (UC, '''        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
''', '''        if "GLOBAL" not in key:
            value = convention.pop(key)
            if value["flags"] or value["default"] != "":
                convention[key] = value
'''))
m("oc-read-dtype-double", "C03", (W, '''                dtype = "string" if file[var].datatype == "S1" else "double"
''', '''                dtype = "double"
'''))
m("oc-read-dims-reversed", "C03", (W, '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "".join(reversed(file[var].dimensions))
'''))
m("oc-read-dims-guess", "C03", (W, '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "MRNECI"[:file[var].ndim]
'''))
m("oc-read-dims-names", "C03", (W, '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "".join(
                    d for d in file.dimensions if d in file[var].dimensions)
'''))

m("od-verify-write-mode-read", "C04", (W, '''            sofa.verify(mode="read")
        except''', '''            sofa.verify(mode="read" if mode == "sofa" and not custom
                        else "write")
        except'''))
m("od-verify-before-removal", "C04", (W, '''    # do not allow writing read only attributes any more
    sofa.protected = True
''', '''    # do not allow writing read only attributes any more
    sofa.protected = True
    if verify is True and not custom:
        sofa.verify(mode="read")
        return sofa
'''))
m("od-auto-parse", "C04", (W, '''    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False

    # update''', '''    if verify == 'auto':
        verify = not version.startswith(("0", "1.0"))

    # update'''))
m("od-setattr-none", "C06", (SO, '''        if self.protected and not hasattr(self, name):
            raise TypeError(f"{name} is an invalid attribute")
''', '''        if self.protected and not hasattr(self, name) and \\
                name not in self._convention:
            raise TypeError(f"{name} is an invalid attribute")
'''))
m("od-setattr-ro-default", "C06", (SO, '''        if name in self._read_only_attr and self.protected:
''', '''        if name in self._read_only_attr and self.protected \\
                and name.startswith("GLOBAL"):
'''))
m("od-setattr-value-equal", "C06", (SO, '''        super.__setattr__(self, name, value)''', '''        if isinstance(value, str) and value == "" and hasattr(self, name):
            return
        super.__setattr__(self, name, value)'''))
m("od-delattr-hasdict", "C06", (SO, '''                if name in self._custom:
                    self._custom.pop(name)
''', '''                if name in self._custom and self.protected:
                    self._custom.pop(name)
'''))
m("od-readonly-stale", "C06", (SO, '''        self._convention = convention
        self._update_read_only_attr()
''', '''        self._convention = convention
        if not self._read_only_attr:
            self._update_read_only_attr()
'''))
m("od-protect-verify-missing", "C07", (SO, '''                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True
''', '''                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
'''))
m("od-protect-missing-last", "C07", (SO, '''                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True
''', '''                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = key != "GLOBAL_History"
'''))
m("od-add-missing-protect", "C07", (SO, '''        self.protected = True

        if verbose:
            if "-" in added:''', '''        if added.count("\\n") > 1:
            self.protected = True

        if verbose:
            if "-" in added:'''))
m("od-upgrade-try-else", "C07", (SO, '''        try:
            self._apply_upgrade(upgrade)
        finally:
            self.protected = True
''', '''        try:
            self._apply_upgrade(upgrade)
        except (TypeError, ValueError, KeyError, AttributeError):
            self.protected = True
            raise
'''))
m("od-add-dims-lower-late", "C08", (SO, '''        if dimensions is None and dtype != "attribute":
            raise ValueError(("dimensions must be provided for entries of "
                              "dtype double and string"))
''', '''        if dimensions is None and dtype == "double":
            raise ValueError(("dimensions must be provided for entries of "
                              "dtype double and string"))
'''))
m("od-add-exists-private", "C08", (SO, '''        if hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
''', '''        if name in self._convention and hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
'''))
m("od-add-exists-case", "C08", (SO, '''        if hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
''', '''        if hasattr(self, name) and dtype != "attribute":
            raise ValueError(f"Entry {name} already exists")
'''))
m("od-verify-units-lower", "C11", (SO, '''                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''                unit = getattr(self, key)
                if unit.lower() == unit.strip() != unit:
                    self.__dict__[key] = unit.strip()
                if unit.lower() != unit:
'''))
m("od-verify-squeeze", "C11", (SO, '''            try:
                value = getattr(self, key).copy()
            except AttributeError:
                value = getattr(self, key)
''', '''            value = getattr(self, key)
            if isinstance(value, np.ndarray) and value.ndim > 4:
                value.shape = value.shape[:4]
'''))
m("od-equals-sort-inplace", "C11", (UT, '''            a, b = [np.char.decode''', '''            if np.size(a) > 1 and np.size(b) > 1:
                a.sort()
                b.sort()
            a, b = [np.char.decode'''))
m("od-inspect-round", "C11", (SO, '''                if value.size < 7:
                    info_str += "  " + \\
                        str(np''', '''                if value.size < 7:
                    np.round(value, 8, out=value)
                    info_str += "  " + \\
                        str(np'''))
m("od-upgrade-substring", "C14", (SO, '''                    if target in targets:
''', '''                    if target in str(targets):
'''))
m("od-upgrade-verify-flag", "C14", (SO, '''        if verify:
            self.verify()

''', '''        if verify and upgrade["move"]:
            self.verify()

'''))
m("od-upgrade-move-first", "C14", (SO, '''            # delete from Sofa object
            delattr(self, source_sofar)
''', '''            # delete from Sofa object
            if source_sofar not in self._convention:
                delattr(self, source_sofar)
'''))
m("od-upgrade-moveaxis-zero", "C14", (SO, '''            if moveaxis is not None:
''', '''            if moveaxis is not None and all(moveaxis):
'''))
m("od-upd-empty-page", "C16", (UC, '''    page = requests.get(urls[1])
    page.raise_for_status()
''', '''    page = requests.get(urls[1])
    if page.status_code >= 500:
        page.raise_for_status()
'''))
m("od-upd-name", "C16", (UC, '''    deprecated = [os.path.split(node.get('href'))[1]
''', '''    deprecated = [node.get('href').replace(urls[1], "")
'''))
m("od-upd-mtime", "C16", (UC, '''                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:''', '''                if data_current != data or assume_yes:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:'''))
m("od-upd-remove-other", "C16", (UC, '''            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
''', '''            for convention in deprecate + [
                    c for c in deprecated if os.path.isfile(
                        os.path.join(conventions_path, c))]:
                os.remove(os.path.join(conventions_path, convention))
'''))
m("od-shape-compare-unset", "C18", (SO, '''                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
''', '''                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
'''))
m("od-version-unset", "C18", (W, '''            # get convention name and version
            convention = file.SOFAConventions
            version = file.SOFAConventionsVersion
''', '''            # get convention name and version
            convention = file.SOFAConventions
            if verify:
                version = file.SOFAConventionsVersion
            else:
                _verify_convention_and_version(
                    file.SOFAConventionsVersion, convention)
'''))
m("od-stream-name", "C19", (SS, '''        if file is None or not file.isopen():
            raise AttributeError(''', '''        if file is None:
            raise AttributeError('''))
m("od-stream-exit-true", "C19", (SS, '''        self._file.close()
''', '''        self._file.close()
        return bool(args and args[0] is AttributeError)
'''))
m("od-stream-dim", "C19", (SS, '''        if dimension not in dims.keys():
''', '''        if dimension not in dims.keys() and dimension not in "CIS":
'''))
m("od-stream-init-open", "C19", (SS, '''        self._filename = filename
''', '''        self._filename = filename
        self._file = Dataset(filename, mode="r")
'''))
m("od-csv-encoding-default", "C21", (UC, '''    with open(file, 'r', encoding="windows-1252") as fid:
''', '''    with open(file, 'r', encoding=None if file.isascii() else
              "windows-1252") as fid:
'''))
m("od-json-utf8", "C21", (UC, '''            json.dump(convention_dict, file, indent=4)
''', '''            file.write(json.dumps(convention_dict, ensure_ascii=not any(
                "deprecated" in p for p in [csv_file]), indent=4))
'''))
m("od-inspect-encoding", "C21", (SO, '''            with open(file, 'w', encoding='utf-8') as f_id:
''', '''            with open(file, 'w', errors="replace") as f_id:
'''))
m("od-new-verify-mandatory", "C25", (SO, '''            if verify and not mandatory:
                self.verify(mode="read")
''', '''            if verify and not mandatory and version != "1.0":
                self.verify(mode="read")
'''))
m("od-new-optional-type", "C25", (SO, '''            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
                continue
''', '''            if not self._mandatory(self._convention[key]["flags"]) \\
                    and (mandatory or not self._convention[key]["type"]):
                continue
'''))
m("od-new-default-copy", "C25", (SO, '''                default = _atleast_nd(default, ndim)
''', '''                default = np.zeros_like(_atleast_nd(default, ndim))
'''))
m("od-add-missing-mand", "C25", (SO, '''                (not is_mandatory and optional)
''', '''                (optional and not mandatory)
'''))
m("od-literal-eval", "C26", (UC, '''                        cell = float(cell) if '.' in cell else int(cell)
''', '''                        cell = eval(cell, {}) if '.' in cell else int(cell)
'''))
m("od-pickle", "C26", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
''', '''        cache = os.path.join(base, "rules.npy")
        if os.path.isfile(cache):
            rules = np.load(cache, allow_pickle=True).item()
        else:
            with open(os.path.join(base, "rules.json"), "r") as file:
                rules = json.load(file)
'''))

m("od-attrs-not-filtered", "C02", (W, '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"]
''', '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")]
'''))

m("oe-chars-point-only", "C05", (SO, '''("." in name or "/" in name)''', '''"." in name'''))
m("oe-chars-start", "C05", (SO, '''("." in name or "/" in name)''', '''("." in name or name.startswith("/"))'''))
m("oe-chars-dtype", "C05", (SO, '''        if dtype != "attribute" and ("."''', '''        if dtype == "double" and ("."'''))

MASK = '                # missing data (masked values) match missing data only\n                npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),\n                                 np.ma.getmaskarray(np.squeeze(b)))\n'
m("oe-mask-one", "C12", (UT, MASK, MASK.replace("squeeze(b)", "squeeze(a)")))
m("oe-mask-none", "C12", (UT, MASK, ""))
m("oe-mask-verbose", "C12", (UT, MASK, '''                if verbose:
                    npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),
                                     np.ma.getmaskarray(np.squeeze(b)))
'''))

m("of-dims-warn-only", "C20", (SO, '''                                   "variables of wrong shape" in issues or
''', '''                                   "variables of wrong shapes" in issues or
'''))
m("of-dims-mode-first", "C20", (SO, '''        # Check if the dimensions can be updated
        self._update_dimensions()

        if dimension not in self._api:
''', '''        # Check if the dimensions can be updated
        if not hasattr(self, "_api") or dimension not in self._api:
            self._update_dimensions()

        if dimension not in self._api:
'''))
m("of-protected-setter-truthy", "C06", (SO, '''        if self.protected and not hasattr(self, name):
            raise TypeError(f"{name} is an invalid attribute")
''', '''        if self.protected and not hasattr(type(self), name) \\
                and not hasattr(self, name) and not name.endswith("_Units"):
            raise TypeError(f"{name} is an invalid attribute")
'''))
m("of-add-missing-empty", "C25", (SO, '''            if key not in keys and add_data:
''', '''            if key not in keys and add_data and \\
                    self._convention[key]["default"] != "":
'''))
m("of-stream-split-last", "C05", (SS, '''            name_netcdf, var_attr = name_netcdf.split('_', 1)
''', '''            name_netcdf, var_attr = name_netcdf.split('_')[:2]
'''))
m("of-stream-dotted", "C05", (SS, '''            name_netcdf = name.replace('Data_', 'Data.', 1)
''', '''            name_netcdf = name.replace('_', '.')
'''))
m("of-stream-load", "C19", (SS, '''            self._data = self._file.variables[name_netcdf]
''', '''            self._data = self._file.variables[name_netcdf]
            if self._data.size == 1:
                self._data = self._data[:]
'''))
m("of-read-skip-empty", "C03", (W, '''            value = getattr(file, attr)
            all_attr.append(f"GLOBAL_{attr}")
''', '''            value = getattr(file, attr)
            if isinstance(value, str) and not value.strip():
                continue
            all_attr.append(f"GLOBAL_{attr}")
'''))
m("of-read-attr-strip", "C03", (W, '''                value = getattr(file[var], attr)
''', '''                value = getattr(file[var], attr)
                if isinstance(value, str):
                    value = value.strip()
'''))
m("of-write-fill", "C02", (W, '''                zlib=use_zlib, complevel=compression)
            if dtype''', '''                zlib=use_zlib, complevel=compression,
                least_significant_digit=12 if compression == 9 else None)
            if dtype'''))
m("of-write-close-early", "C01", (W, '''    if verify:
        sofa.verify(mode="write")
''', '''    if verify:
        sofa.verify(mode="write" if compression else "read")
'''))
m("of-equals-attr-case", "C12", (UT, '''            if a != b:
                is_identical''', '''            if str(a) != str(b):
                is_identical'''))
