"""Edits that keep the behaviour: (id, [(module, old, new)])."""
REWRITES = []


def r(vid, *edits):
    REWRITES.append((vid, list(edits)))


W = "io"
r("write-items-loop", (W, "        for dim in sofa._api:\n            file.createDimension(dim, sofa._api[dim])", "        for dim, size in sofa._api.items():\n            file.createDimension(dim, size)"))
r("write-global-helper", (W, '        keys = [key for key in all_keys if key.startswith("GLOBAL_")]\n        for key in keys:\n            setattr(file, key[7:], str(getattr(sofa, key)))', '        _write_globals(file, sofa, all_keys)'), (W, "def _format_value_for_netcdf(", '''def _write_globals(file, sofa, keys):
    """Write all global attributes."""
    for key in keys:
        if key.startswith("GLOBAL_"):
            file.setncattr(key[len("GLOBAL_"):], str(getattr(sofa, key)))


def _format_value_for_netcdf('''))
r("write-attr-helper", (W, '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"]
            for sub_key in sub_keys:
                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))''', '''            prefix = key + "_"
            for sub_key in all_keys:
                if not sub_key.startswith(prefix):
                    continue
                if sofa._convention[sub_key]["type"] != "attribute":
                    continue
                tmp_var.setncattr(sub_key[len(prefix):],
                                  str(getattr(sofa, sub_key)))'''))
r("write-vars-builtin", (W, "all_keys = [key for key in sofa.__dict__.keys() if not key.startswith(\"_\")]", "all_keys = []\n    for key in vars(sofa):\n        if key[:1] != '_':\n            all_keys.append(key)"))
r("write-filter-vars", (W, '''            if sofa._convention[key]["type"] == "attribute":
                continue

            # get''', '''            entry_type = sofa._convention[key]["type"]
            is_attribute = entry_type == "attribute"
            if is_attribute:
                continue

            # get'''))
r("write-extract-variable", (W, '''            # create variable and write data
            shape = list(sofa._dimensions[key])
            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
            if dtype == "f8":
                tmp_var[:] = value
            else:
                # split strings into their (utf-8 encoded) characters
                tmp_var[:] = value.view("S1").reshape(value.shape + (-1, ))
''', '''            tmp_var = _create(file, key, dtype, sofa, use_zlib, compression)
            if dtype != "f8":
                value = value.view("S1").reshape(value.shape + (-1, ))
            tmp_var[:] = value
'''), (W, "def _format_value_for_netcdf(", '''def _create(file, key, dtype, sofa, zlib, level):
    """Create a variable."""
    return file.createVariable(
        key.replace("Data_", "Data."), dtype, list(sofa._dimensions[key]),
        zlib=zlib, complevel=level)


def _format_value_for_netcdf('''))
r("format-dict-dispatch", (W, '''    # parse data
    if dtype == "attribute":
        value = str(value)
        netcdf_dtype = "attribute"
    elif dtype == "double":''', '''    if dtype not in ("attribute", "double", "string"):
        raise ValueError(f"Unknown type {dtype} for {key}")
    # parse data
    if dtype == "attribute":
        value = str(value)
        netcdf_dtype = "attribute"
    elif dtype == "double":'''))

# ---- reading
r("read-set-helper", (W, '''            if not hasattr(sofa, f"GLOBAL_{attr}"):
                sofa._add_custom_api_entry(
                    f"GLOBAL_{attr}", value, None, None, "attribute")
                custom.append(f"GLOBAL_{attr}")
                sofa.protected = False
            else:
                setattr(sofa, f"GLOBAL_{attr}", value)
''', '''            _store(sofa, f"GLOBAL_{attr}", value, None, "attribute", custom)
'''), (W, '''                if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
                    sofa._add_custom_api_entry(
                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
                else:
                    setattr(sofa, var.replace(".", "_") + "_" + attr, value)
''', '''                _store(sofa, var.replace(".", "_") + "_" + attr, value,
                       None, "attribute", custom)
'''), (W, "def _read_netcdf(", '''def _store(sofa, name, value, dims, dtype, custom):
    if hasattr(sofa, name):
        setattr(sofa, name, value)
        return
    sofa._add_custom_api_entry(name, value, None, dims, dtype)
    custom.append(name)
    sofa.protected = False


def _read_netcdf('''))
r("read-name-var", (W, "            value = _format_value_from_netcdf(file[var][:], var)\n", "            name = var.replace('.', '_')\n            nc = file[var]\n            value = _format_value_from_netcdf(nc[:], var)\n"),
  (W, '            if hasattr(sofa, var.replace(".", "_")):\n                setattr(sofa, var.replace(".", "_"), value)', '            if hasattr(sofa, name):\n                setattr(sofa, name, value)'),
  (W, "for attr in [a for a in file[var].ncattrs() if a not in skip]:\n\n                value = getattr(file[var], attr)", "for attr in nc.ncattrs():\n                if attr in skip:\n                    continue\n                value = nc.getncattr(attr)"))
r("read-set-collect", (W, "    all_attr = []\n", "    all_attr = set()\n"), (W, "all_attr.append(f\"GLOBAL_{attr}\")", "all_attr.add(f\"GLOBAL_{attr}\")"),
  (W, "all_attr.append(var.replace(\".\", \"_\"))", "all_attr.add(var.replace(\".\", \"_\"))"),
  (W, "all_attr.append(var.replace(\".\", \"_\") + \"_\" + attr)", "all_attr.add(\"_\".join((var.replace(\".\", \"_\"), attr)))"))
r("read-remove-helper", (W, """    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
""", """    _remove_defaults(sofa, all_attr)
"""), (W, "def _read_netcdf(", """def _remove_defaults(sofa, keep):
    for name in list(vars(sofa)):
        if name.startswith("_") or name in keep:
            continue
        delattr(sofa, name)


def _read_netcdf("""))
r("read-items", (W, "        for var in file.variables.keys():\n", "        for var, variable in file.variables.items():\n"), (W, "file[var][:], var)", "variable[:], var)"),
  (W, "for a in file[var].ncattrs()", "for a in variable.ncattrs()"), (W, "getattr(file[var], attr)", "getattr(variable, attr)"))
r("read-branch-swap", (W, """        if np.ma.is_masked(value):
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:
            # Convert to numpy array or scalar
            value = np.asarray(value)
""", """        missing = np.ma.is_masked(value)
        if not missing:
            value = np.asarray(value)
        if missing:
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
"""))
r("read-early-return", (W, """    if value.size == 1 and key not in data_keys:
        value = value[0]

    return value
""", """    if key in data_keys or value.size != 1:
        return value
    return value[0]
"""))
r("read-default-helper-split", (W, """        if mode == "sofa":
            # get convention name and version
            convention = file.SOFAConventions
            version = file.SOFAConventionsVersion

            # check if convention and version exist
            _verify_convention_and_version(version, convention)

            # get SOFA object with default values
            sofa = sf.Sofa(convention, version=version, verify=verify)
        else:
            sofa = sf.Sofa(None)
""", """        if mode != "sofa":
            sofa = sf.Sofa(None)
        else:
            sofa, version = _empty_object(file, verify)
"""), (W, "def _read_netcdf(", """def _empty_object(file, verify):
    convention, version = file.SOFAConventions, file.SOFAConventionsVersion
    _verify_convention_and_version(version, convention)
    return sf.Sofa(convention, version=version, verify=verify), version


def _read_netcdf("""))

# ---- names
SS = "sofastream"
r("stream-partition", (SS, """            name_netcdf, var_attr = name_netcdf.split('_', 1)
""", """            name_netcdf, _, var_attr = name_netcdf.partition('_')
"""))
r("stream-reorder", (SS, """        # get value if passed attribute points to a netCDF4-variable
        if name_netcdf in dset_variables and not is_global:
            # get variable from SOFA-file
            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)

        # get value if passed attribute points to a netCDF4-attribute
        elif name_netcdf in dset_attributes and is_global:
            # get attribute value from SOFA-file
            self._data = self._file.getncattr(name_netcdf)

        else:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        return self._data
""", """        found = name_netcdf in (
            dset_attributes if is_global else dset_variables)
        if not found:
            raise AttributeError(f"{name} is not contained in SOFA-file")
        if is_global:
            data = self._file.getncattr(name_netcdf)
        else:
            data = self._file.variables[name_netcdf]
            if var_attr:
                data = data.getncattr(var_attr)
        self._data = data
        return data
"""))
r("stream-helper", (SS, """        # remove delimiter from passed sofar-attribute
        is_global = name.startswith('GLOBAL_')
        name_netcdf = name[7:] if is_global else name
        if name.startswith('Data_'):
            name_netcdf = name.replace('Data_', 'Data.', 1)

        # Handle variable-attributes (e.g. '_Units' and '_Type')
        var_attr = None
        if "_" in name_netcdf and not is_global:
            name_netcdf, var_attr = name_netcdf.split('_', 1)
""", """        is_global, name_netcdf, var_attr = self._split_name(name)
"""), (SS, """    @property
    def list_dimensions(self):""", """    @staticmethod
    def _split_name(name):
        if name.startswith('GLOBAL_'):
            return True, name[len('GLOBAL_'):], None
        prefix = ''
        if name.startswith('Data_'):
            prefix, name = 'Data.', name[5:]
        parts = name.split('_', 1)
        return False, prefix + parts[0], parts[1] if len(parts) > 1 else None

    @property
    def list_dimensions(self):"""))
r("path-helper", (W, """    # check the filename
    filename = pathlib.Path(filename).with_suffix('.sofa')

    if verify:""", """    # check the filename
    filename = _sofa_path(filename)

    if verify:"""), (W, """    filename = pathlib.Path(filename).with_suffix('.sofa')
    if not os.path.isfile(filename):
""", """    filename = _sofa_path(filename)
    if not filename.is_file():
"""), (W, "def _read_netcdf(", """def _sofa_path(filename):
    return pathlib.Path(filename).with_suffix(".sofa")


def _read_netcdf("""))
r("write-names-helper", (W, 'key.replace("Data_", "Data."), dtype', '_variable_name(key), dtype'), (W, "def _format_value_for_netcdf(", """def _variable_name(key):
    if key.startswith("Data_"):
        return "Data." + key[5:]
    return key


def _format_value_for_netcdf("""))
r("write-global-partition", (W, "setattr(file, key[7:],", "setattr(file, key.partition('_')[2],"))

# ---- protection
SO = "sofa"
r("set-merge", (SO, """        # don't allow new attributes to be added outside the class
        if self.protected and not hasattr(self, name):
            raise TypeError(f"{name} is an invalid attribute")

        # don't allow setting read only attributes
        if name in self._read_only_attr and self.protected:
            raise TypeError((
                f"{name} is a read only attribute. Iy you know what you are "
                "doing, you can set Sofa.protected = False to write read "
                "only data (e.g., to repair corrupted SOFA data)."))
""", """        if self.protected:
            self._check_access(name)
"""), (SO, "    def __delattr__(self, name: str):", """    def _check_access(self, name):
        if name not in self.__dict__ and not hasattr(type(self), name):
            raise TypeError(f"{name} is an invalid attribute")
        if name in self._read_only_attr:
            raise TypeError(f"{name} is a read only attribute")

    def __delattr__(self, name: str):"""))
r("set-convert-helper", (SO, """        if not isinstance(value, (str, dict, np.ndarray)) \\
                and name != "protected":
            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]

        super.__setattr__(self, name, value)""", """        if name == "protected" or isinstance(value, (str, dict, np.ndarray)):
            super.__setattr__(self, name, value)
            return

        array = np.atleast_2d(value)
        super.__setattr__(
            self, name, array.ravel()[0] if array.size == 1 else array)"""))
r("del-guard-first", (SO, """        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)

            # check if custom field as to be deleted
            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")
""", """        if self.protected:
            flags = self._convention[name]["flags"]
            if self._mandatory(flags):
                raise TypeError(
                    f"{name} is a mandatory attribute and can't be deleted")
        super().__delattr__(name)

        custom = getattr(self, "_custom", {})
        if name in custom:
            del custom[name]
            if name in self._convention:
                del self._convention[name]
"""))
r("del-direct", (SO, "        delattr(self, name)\n", "        self.__delattr__(name)\n"))
r("flags-return", (SO, """        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory
""", """        return flags is not None and "m" in flags
"""))
r("ro-loop", (SO, """        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
""", """        read_only = []
        for key, value in self._convention.items():
            if not self._read_only(value["flags"]):
                continue
            read_only.append(key)
        self._read_only_attr = read_only
"""))
r("missing-restore-old", (SO, "        self.protected = False\n\n        # loop data in convention\n", "        protected = self.protected\n        self.protected = False\n\n        # loop data in convention\n"),
  (SO, "\n        self.protected = True\n\n        if verbose:\n", "\n        self.protected = protected\n\n        if verbose:\n"))
r("missing-finally", (SO, """        self.protected = False

        # loop data in convention
        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"

        self.protected = True
""", """        self.protected = False
        try:
            for key, entry in self._convention.items():
                is_mandatory = self._mandatory(entry["flags"])
                wanted = mandatory if is_mandatory else optional
                if not wanted or key in keys:
                    continue
                setattr(self, key, entry["default"])
                kind = 'mandatory' if is_mandatory else 'optional'
                added += f"- {key} ({kind})\\n"
        finally:
            self.protected = True
"""))
r("entry-finally", (SO, """        # create custom API if it not exists
        self.protected = False

        # add attribute to object (done first, because it fails for values
        # that can not be converted)
        try:
            setattr(self, key, value)
        except Exception:
            self.protected = True
            raise
""", """        # add attribute to object (done first, because it fails for values
        # that can not be converted)
        self._protected = False
        try:
            setattr(self, key, value)
        finally:
            self._protected = True
"""), (SO, "            self._convention[key] = self._custom[key]\n\n        self.protected = True\n", "            self._convention[key] = self._custom[key]\n"))
CM = """    @contextmanager
    def _unprotected(self):
        \"\"\"Lift the protection inside a with block.\"\"\"
        self.protected = False
        try:
            yield self
        finally:
            self.protected = True

    def _reset_convention(self):"""
r("contextmanager", (SO, "    def _reset_convention(self):", CM), (SO, "import os\n", "import os\nfrom contextlib import contextmanager\n"),
  (SO, "        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n", "        with self._unprotected():\n            self._apply_upgrade(upgrade)\n"),
  (SO, "        self.protected = False\n        self._dimensions = {}\n        self._api = {}\n        self.protected = True\n", "        with self._unprotected():\n            self._dimensions = {}\n            self._api = {}\n"),
  (SO, """        self.protected = False

        # loop data in convention
        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"

        self.protected = True
""", """        with self._unprotected():
            # loop data in convention
            for key in self._convention.keys():
                is_mandatory = self._mandatory(self._convention[key]["flags"])
                add_data = (is_mandatory and mandatory) or \\
                    (not is_mandatory and optional)
                # add with default
                if key not in keys and add_data:
                    setattr(self, key, self._convention[key]["default"])
                    added += f"- {key} "
                    added += (
                        f"({'mandatory' if is_mandatory else 'optional'})\\n")
"""))
r("add-rollback", (SO, """        try:
            setattr(self, key, value)
        except Exception:
            self.protected = True
            raise
""", ""), (SO, """            self._convention[key] = self._custom[key]

        self.protected = True
""", """            self._convention[key] = self._custom[key]
            try:
                setattr(self, key, value)
            except Exception:
                del self._custom[key]
                del self._convention[key]
                self.protected = True
                raise
        else:
            try:
                setattr(self, key, value)
            except Exception:
                self.protected = True
                raise

        self.protected = True
"""))
r("add-check-helper", (SO, """        # check input
        if hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
        if dtype not in""", """        # check input
        self._check_new(name)
        if dtype not in"""), (SO, "    def _add_custom_api_entry(self, key", """    def _check_new(self, name):
        if not hasattr(self, name):
            return
        raise ValueError("Entry " + name + " already exists")

    def _add_custom_api_entry(self, key"""))
r("add-entry-dict", (SO, '''            if not hasattr(self, "_custom"):
                self._custom = {}

            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
''', '''            entry = dict(flags=flags, dimensions=dimensions, type=dtype,
                         default=None, comment="")
            custom = getattr(self, "_custom", {})
            custom[key] = entry
            self._custom = custom
            self._convention.update({key: entry})
'''))

# ---- Sofa.verify
r("verify-lists", (SO, '''        missing = ""
        keys = [''', '''        missing = []
        keys = ['''), (SO, '''                missing += "- " + key + "\\n"
''', '''                missing.append(f"- {key}\\n")
'''), (SO, '''                error_msg += missing
''', '''                error_msg += "".join(missing)
'''), (SO, '''                warning_msg += missing
''', '''                warning_msg += "".join(missing)
'''))
r("verify-names-list", (SO, '''        current_error = ""
        for key in keys:

            if self._convention[key]["type"] != "attribute":
                continue

            # the case above caught attributes with too many underscores
            if key.count("_") == 0:
                current_error += "- " + key + "\\n"

        if current_error:''', '''        wrong = [f"- {key}" for key in keys
                 if self._convention[key]["type"] == "attribute"
                 and "_" not in key]
        current_error = "\\n".join(wrong) + "\\n"

        if wrong:'''))
r("verify-types-helper", (SO, '''            if dtype == "attribute":
                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "double":''', '''            if dtype == "attribute":
                current_error += self._check_attribute(key, value)
            elif dtype == "double":'''), (SO, '''    @staticmethod
    def _verify_value(''', '''    @staticmethod
    def _check_attribute(key, value):
        """Message if an attribute is no string."""
        if isinstance(value, str):
            return ""
        return f"- {key} must be string but is {type(value)}\\n"

    @staticmethod
    def _verify_value('''))
r("verify-shape-helper", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):
''', '''            matched = None
            for dim in dimensions.split(", "):
'''), (SO, '''                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break

            if not shape_matched:''', '''                    matched = dim.upper()
                    break

            if matched is not None:
                self._dimensions[key] = matched
            else:'''))
r("verify-shape-else", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):
''', '''            for dim in dimensions.split(", "):
'''), (SO, '''                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break

            if not shape_matched:
                # get possible dimensions in verbose form, i.e., "(M=2, C=3)""
''', '''                    self._dimensions[key] = dim.upper()
                    break
            else:
                # get possible dimensions in verbose form, i.e., "(M=2, C=3)""
'''))
r("verify-shape-ref", (SO, '''                shape_ref = tuple(
                    [self._api[d.upper()] if d != "S" else 1 for d in dim])
''', '''                shape_ref = ()
                for d in dim:
                    shape_ref += (1 if d == "S" else self._api[d.upper()], )
'''))
r("verify-rules-items", (SO, '''        for key in rules.keys():

            # convert to sofar format
            key_sofar = key.replace(".", "_").replace(":", "_")

            if not hasattr(self, key_sofar):
                continue

            # actual and possible values for the current key
            test = getattr(self, key_sofar)
            ref = rules[key]["value"]
''', '''        for key, rule in rules.items():

            # convert to sofar format
            key_sofar = key.replace(":", "_").replace(".", "_")
            test = getattr(self, key_sofar, None)
            if key_sofar not in self.__dict__:
                continue

            # possible values for the current key
            ref = rule["value"]
'''))
r("verify-general-filter", (SO, '''            items = rules[key]["general"] if "general" in rules[key] else []

            for key_dep in items:

                # convert key to sofar format
                key_dep = key_dep.replace(".", "_").replace(":", "_")

                # check if dependency is contained in SOFA object hard to test,
                # for mandatory fields (added by sofar by default).
                if not hasattr(self, key_dep):
                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue
''', '''            for key_dep in rules[key].get("general", []):

                # check if dependency is contained in SOFA object hard to test,
                # for mandatory fields (added by sofar by default).
                name_dep = key_dep.replace(".", "_").replace(":", "_")
                if name_dep in self.__dict__:
                    continue
                current_error += (f"- {name_dep} must be given if "
                                  f"{key_sofar} is in SOFA object\\n")
'''))
r("verify-unit-all", (SO, '''        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''        return all(unit_test in unit_aliases
                   and unit_aliases[unit_test] == unit_ref
                   for unit_test, unit_ref in zip(units_test, units_ref))
'''))
r("verify-value-simple", (SO, '''        if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
            if test in ref:
                return True
            else:
                return False
''', '''        if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
            return test in ref
'''), (SO, '''        if key.endswith("Units"):
            return sf.Sofa._verify_unit(test, ref, unit_aliases)
        else:
            return False
''', '''        return key.endswith("Units") and \\
            sf.Sofa._verify_unit(test, ref, unit_aliases)
'''))
r("verify-units-helper", (SO, '''            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''            for key, unit in self.__dict__.items():
                if key.endswith("Units") and not unit == unit.lower():
'''))
r("verify-deprecation-get", (SO, '''        if self.GLOBAL_SOFAConventions in \\
                deprecations["GLOBAL:SOFAConventions"]:
            convention = self.GLOBAL_SOFAConventions
''', '''        deprecated = deprecations["GLOBAL:SOFAConventions"]
        convention = self.GLOBAL_SOFAConventions
        if convention in deprecated:
'''))
r("verify-specific-get", (SO, '''            if "specific" in rules[key] \\
                    and test in rules[key]["specific"]:
                items = rules[key]["specific"][test].items()
            else:
                items = {}.items()

            for key_dep, ref_dep in items:
''', '''            specific = rules[key].get("specific", {})
            if test not in specific:
                continue

            for key_dep, ref_dep in specific[test].items():
'''))
r("verify-dimension-helper", (SO, '''                    for dim in rules[key]["specific"][test]["_dimensions"]:
                        # possible sizes
                        dim_ref = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value"]
''', '''                    for dim, restriction in ref_dep.items():
                        # possible sizes
                        dim_ref = restriction["value"]
'''))
r("verify-split", (SO, '''        # 7. check write only restrictions: units shall be in lower-case
        # (could be tested in _verify_unit but this way a more verbose error
        # message can be generated)

        if mode == "write":
            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
                    current_error += (f"- {key} is {unit} but must contain "
                                      "only lower case letters when writing "
                                      "SOFA files to disk.\\n")
''', '''        current_error += self._verify_unit_case(mode)
'''), (SO, '''    @staticmethod
    def _verify_value(''', '''    def _verify_unit_case(self, mode):
        """
        check write only restrictions: units shall be in lower-case
        (could be tested in _verify_unit but this way a more verbose error
        message can be generated)
        """
        message = ""
        if mode != "write":
            return message
        for key in [k for k in self.__dict__ if k.endswith("Units")]:
            unit = getattr(self, key)
            if unit.lower() == unit:
                continue
            message += (f"- {key} is {unit} but must contain "
                        "only lower case letters when writing "
                        "SOFA files to disk.\\n")
        return message

    @staticmethod
    def _verify_value('''))
r("verify-issues-early", (SO, '''        # verbose issue message
        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None
''', '''        # verbose issue message
        issues = [msg for msg in (error_msg, warning_msg) if msg]
        issues = "\\n".join(issues) if issues else None
'''))
r("verify-two-strings", (SO, '''        if missing:
            if issue_handling == "raise":
                error_msg +=''', '''        if len(missing) > 0:
            if issue_handling == "raise":
                error_msg +='''))
r("issues-header-first", (SO, '''        current_error = ""
        for key in keys:

            if self._convention[key]["type"] == "attribute":
                continue

            if "_" in key.replace("Data_", ""):
                current_error += "- " + key + "\\n"

        if current_error:
            error_msg += (
                "Detected variable names with too many underscores."
                "Underscores are only allowed for the variable Data:\\n")
            error_msg += current_error
''', '''        current_error = ""
        for key in keys:

            if self._convention[key]["type"] == "attribute":
                continue

            if "_" in key.replace("Data_", ""):
                if not current_error:
                    current_error += (
                        "Detected variable names with too many underscores."
                        "Underscores are only allowed for the variable Data:"
                        "\\n")
                current_error += "- " + key + "\\n"

        error_msg += current_error
'''))
r("issues-header-assign", (SO, '''        current_error = ""
        for key in keys:

            if self._convention[key]["type"] == "attribute":
                continue

            if "_" in key.replace("Data_", ""):
                current_error += "- " + key + "\\n"

        if current_error:
            error_msg += (
                "Detected variable names with too many underscores."
                "Underscores are only allowed for the variable Data:\\n")
            error_msg += current_error
''', '''        current_error = ""
        for key in keys:

            if self._convention[key]["type"] == "attribute":
                continue

            if "_" in key.replace("Data_", ""):
                if not current_error:
                    current_error = (
                        "Detected variable names with too many underscores."
                        "Underscores are only allowed for the variable Data:"
                        "\\n")
                current_error += "- " + key + "\\n"

        error_msg += current_error
'''))
r("issues-handler-inline", (SO, '''        if issue_handling != "ignore":
            _, issues = self._verify_handle_issues(
                    warning_msg, error_msg, issue_handling)

            if issue_handling == "return":
                return issues

    @staticmethod''', '''        if issue_handling == "ignore":
            return None

        error_occurred, issues = self._verify_handle_issues(
            warning_msg, error_msg, issue_handling)
        del error_occurred
        return issues if issue_handling == "return" else None

    @staticmethod'''))
r("issues-handler-channels", (SO, '''        if warning_msg != "\\nWARNINGS\\n--------\\n":
            if issue_handling == "raise":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif issue_handling == "print":
                print(warning_msg)
        else:
            warning_msg = None

        # handle errors
        if error_msg != "\\nERRORS\\n------\\n":
            if issue_handling == "raise":
                raise ValueError(error_msg)
            elif issue_handling == "print":
                print(error_msg)
        else:
            error_msg = None
''', '''        has_warning = warning_msg != "\\nWARNINGS\\n--------\\n"
        has_error = error_msg != "\\nERRORS\\n------\\n"
        warning_msg = warning_msg if has_warning else None
        error_msg = error_msg if has_error else None

        if issue_handling == "print":
            for msg in (warning_msg, error_msg):
                if msg is not None:
                    print(msg)
        if issue_handling == "raise":
            if has_warning:
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            if has_error:
                raise ValueError(error_msg)
'''))
r("issues-join", (SO, '''        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None
''', '''        issues = "\\n".join([m for m in (error_msg, warning_msg) if m]) or None
'''))
r("issues-empty-strings", (SO, '''        # initialize warning and error messages
        error_msg = "\\nERRORS\\n------\\n"
        warning_msg = "\\nWARNINGS\\n--------\\n"
''', '''        # initialize warning and error messages
        header = {"e": "\\nERRORS\\n------\\n", "w": "\\nWARNINGS\\n--------\\n"}
        error_msg = header["e"]
        warning_msg = header["w"]
'''), (SO, '''        if error_msg != "\\nERRORS\\n------\\n":
            if issue_handling == "ignore":
                return
''', '''        if error_msg != header["e"]:
            if issue_handling == "ignore":
                return
'''))
r("issues-lists", (SO, '''        # check reserved names
        current_error = ""
        for key in keys:

            # AES69 Sec. 4.7.1
            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"

        if current_error:
''', '''        # check reserved names
        reserved = []
        for key in keys:

            # AES69 Sec. 4.7.1
            if key.startswith(("PRIVATE", "API")):
                reserved.append(key)
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                reserved.append(key)

        current_error = "".join([f"- {key}\\n" for key in reserved])
        if current_error:
'''))
r("issues-deprecation-text", (SO, '''            if mode == "write":
                error_msg += msg
            else:
                warning_msg += msg
''', '''            if mode != "write":
                warning_msg = warning_msg + msg
            else:
                error_msg = f"{error_msg}{msg}"
'''))
# ------------------------------------------------------------------ C11
r("obs-shape-list", (SO, '''                while len(shape) < len(dimension):
                    shape += (1, )
''', '''                shape = list(shape)
                shape += [1] * (len(dimension) - len(shape))
'''))
r("obs-add-helper", (SO, '''                if issue_handling != "raise":
                    # add missing data with default value
                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True
''', '''                if issue_handling != "raise":
                    self._add_default(key)
'''), (SO, '''    @staticmethod
    def _verify_handle_issues(''', '''    def _add_default(self, key):
        """Add an entry with its default value."""
        self.protected = False
        setattr(self, key, self._convention[key]["default"])
        self.protected = True

    @staticmethod
    def _verify_handle_issues('''))
r("obs-copy-sort", ("utils", '''            if not np.array_equal(a, b):
''', '''            a = np.atleast_1d(a).copy()
            b = np.atleast_1d(b).copy()
            a.flags.writeable = False
            if not np.array_equal(a, b):
'''))
r("obs-keys-list", (SO, '''        # list of all attributes
        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]

        # start''', '''        # list of all attributes
        keys = list(self.__dict__)
        for key in [k for k in keys if k.startswith("_")]:
            keys.remove(key)

        # start'''))
r("obs-value-copy", ("io", '''        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
''', '''        value = np.array(_atleast_nd(value, len(dimensions)))
        netcdf_dtype = "f8"
'''))
r("obs-missing-items", (SO, '''        for key in self._convention.keys():
            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:

                if issue_handling != "raise":
                    # add missing data with default value
                    self.protected = False
                    setattr(self, key, self._convention[key]["default"])
                    self.protected = True
''', '''        for key, entry in self._convention.items():
            if key not in keys and self._mandatory(entry["flags"]):

                if issue_handling != "raise":
                    # add missing data with default value
                    self.protected = False
                    setattr(self, key, entry["default"])
                    self.protected = True
'''))

# ------------------------------------------------------------------ C12
UT = "utils"
r("eq-early-return", (UT, '''            if a != b:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''            if not a == b:
                return _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''))
r("eq-helper-keys", (UT, '''    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]
    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]

    if exclude is not None:
        if exclude.upper() == "GLOBAL":
            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]
        elif exclude.upper() == "ATTR":
            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]
        elif exclude.upper() == "DATE":
            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
        else:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
''', '''    keys_a = _keys_to_compare(sofa_a, exclude)
    keys_b = _keys_to_compare(sofa_b, exclude)
'''), (UT, '''def _equals_raise_warning(''', '''def _keys_to_compare(sofa, exclude):
    keys = [k for k in vars(sofa) if not k.startswith("_")]
    if exclude is None:
        return keys
    mode = exclude.upper()
    if mode not in ("GLOBAL", "ATTR", "DATE"):
        raise ValueError(
            f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
    out = []
    for k in keys:
        if mode == "GLOBAL" and k.startswith("GLOBAL_"):
            continue
        if mode == "DATE" and k.find("Date") != -1:
            continue
        if mode == "ATTR" and sofa._convention[k]["type"] == "attribute":
            continue
        out.append(k)
    return out


def _equals_raise_warning('''))
r("eq-sets", (UT, '''    if set(keys_a) != set(keys_b):
        return''', '''    if set(keys_a).symmetric_difference(keys_b):
        return'''))
r("eq-sorted", (UT, '''    if set(keys_a) != set(keys_b):
        return''', '''    if sorted(keys_a) != sorted(keys_b):
        return'''))
r("eq-missing-loop", (UT, '''    if set(keys_a) != set(keys_b):
        return _equals_raise_warning(
            "not identical: sofa_a and sofa_b do not have the ame attributes",
            verbose)
''', '''    for key in keys_a:
        if key not in keys_b:
            return _equals_raise_warning(
                "not identical: sofa_a and sofa_b do not have the same "
                "attributes", verbose)
'''))
r("eq-any-missing", (UT, '''    if set(keys_a) != set(keys_b):
        return''', '''    if any(key not in keys_b for key in keys_a):
        return'''))
r("eq-type-first", (UT, '''        # compare attributes
        if type_a == "attribute" and type_b == "attribute":

            # compare
            if''', '''        # compare types
        if type_a != type_b:
            is_identical = _equals_raise_warning(
                (f"not identical: {key} has different data types "
                 f"({type_a}, {type_b})"), verbose)

        # compare attributes
        elif type_a == "attribute":

            # compare
            if'''), (UT, 'elif type_a == "double" and type_b == "double":', 'elif type_a == "double":'), (UT, 'elif type_a == "string" and type_b == "string":', 'elif type_a == "string":'))
r("eq-helper-double", (UT, '''            try:
                # missing data (masked values) match missing data only
                npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),
                                 np.ma.getmaskarray(np.squeeze(b)))
                # arrays of different shape are not identical, even if their
                # values can be broadcast
                npt.assert_equal(np.shape(np.squeeze(a)),
                                 np.shape(np.squeeze(b)))
                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
            except (AssertionError, TypeError, ValueError):
                is_identical''', '''            if not _same_numbers(a, b):
                is_identical'''), (UT, '''def _equals_raise_warning(''', '''def _same_numbers(a, b):
    """Compare values and shapes."""
    try:
        a, b = np.squeeze(a), np.squeeze(b)
        npt.assert_equal(np.ma.getmaskarray(a), np.ma.getmaskarray(b))
        if a.shape != b.shape:
            return False
        npt.assert_allclose(a, b)
        return True
    except (AssertionError, TypeError, ValueError):
        return False


def _equals_raise_warning('''))
r("eq-allclose", (UT, '''                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
            except''', '''                if not np.allclose(np.squeeze(a), np.squeeze(b), rtol=1e-7,
                                   atol=0, equal_nan=True):
                    raise AssertionError()
            except'''))
r("eq-allclose-flag", (UT, '''                # missing data (masked values) match missing data only
                npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),
                                 np.ma.getmaskarray(np.squeeze(b)))
                # arrays of different shape are not identical, even if their
                # values can be broadcast
                npt.assert_equal(np.shape(np.squeeze(a)),
                                 np.shape(np.squeeze(b)))
                npt.assert_allclose(np.squeeze(a), np.squeeze(b))
            except (AssertionError, TypeError, ValueError):
                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
''', '''                same = np.shape(np.squeeze(a)) == np.shape(np.squeeze(b)) \\
                    and np.array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                       np.ma.getmaskarray(np.squeeze(b))) \\
                    and np.allclose(np.squeeze(a), np.squeeze(b), rtol=1e-7,
                                    atol=0, equal_nan=True)
            except (TypeError, ValueError):
                same = False
            if not same:
                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
'''))
r("eq-string-helper", (UT, '''            a, b = [np.char.decode(s, "utf-8") if s.dtype.kind == "S"
                    else s.astype("U") for s in (np.squeeze(a), np.squeeze(b))]
            if not np.array_equal(a, b):''', '''            if not np.array_equal(_text(a), _text(b)):'''), (UT, '''def _equals_raise_warning(''', '''def _text(value):
    value = np.squeeze(value)
    if value.dtype.kind == "S":
        return np.char.decode(value, encoding="utf-8")
    return value.astype(str)


def _equals_raise_warning('''))
r("eq-list-differences", (UT, "    is_identical = True\n\n    # get", "    differences = []\n\n    # get"), (UT, '''                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''                differences.append(key)
                _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''), (UT, '''                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)

        # compare string''', '''                differences.append(key)
                _equals_raise_warning(
                    "not identical: different values for {key}", verbose)

        # compare string'''), (UT, '''                is_identical = _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
        else:
            is_identical = _equals_raise_warning(
                (f"''', '''                differences.append(key)
                _equals_raise_warning(
                    "not identical: different values for {key}", verbose)
        else:
            differences.append(key)
            _equals_raise_warning(
                (f"'''), (UT, "    return is_identical\n", "    return not differences\n"))
r("eq-all-helper", (UT, '''    is_identical = True

    # get''', '''    # get'''), (UT, '''    # compare the data inside the SOFA object
    for key in keys_a:

''', '''    identical = [_entry_equal(sofa_a, sofa_b, key, verbose)
                 for key in keys_a]
    return all(identical)


def _entry_equal(sofa_a, sofa_b, key, verbose):
        is_identical = True

'''), (UT, "    return is_identical\n", "        return is_identical\n"))
r("eq-while-pop", (UT, '''    for key in keys_a:

        # get data and types''', '''    remaining = list(keys_a)
    while remaining:
        key = remaining.pop()

        # get data and types'''))
r("eq-date-loop-b", (UT, '''    for key in keys_a:

        # get data and types''', '''    for key in sorted(keys_b):

        # get data and types'''))
r("eq-dict-access", (UT, '''        a = getattr(sofa_a, key)
        b = getattr(sofa_b, key)
''', '''        a, b = (vars(s)[key] for s in (sofa_a, sofa_b))
'''))
r("eq-while-index", (UT, '''    for key in keys_a:

        # get data and types''', '''    i = 0
    while i < len(keys_a):
        key = keys_a[i]
        i += 1

        # get data and types'''))
r("eq-for-index", (UT, '''    for key in keys_a:

        # get data and types''', '''    for i in range(len(keys_a)):
        key = keys_a[i]

        # get data and types'''))

# ------------------------------------------------------------------ C13
r("sh-copy-new", (SO, "return deepcopy(self)", '''new = Sofa(None)
        new.__dict__.update(deepcopy(self.__dict__))
        return new'''))
r("sh-module-const", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        tables = []
        for name in _TABLE_FILES:
            with open(os.path.join(base, name + ".json"), "r") as file:
                tables.append(json.load(file))

        return tuple(tables)
'''), (SO, "class Sofa():", '''_TABLE_FILES = ["rules", "unit_aliases", "deprecations", "upgrade"]


class Sofa():'''))
r("sh-lru-pure", (UT, "def version():\n", '''@functools.lru_cache
def _number(text):
    return float(text)


def version():
'''), (UT, "import os", "import functools\nimport os"))
r("sh-default-none", (SO, "def _load_convention(self, convention, version):", "def _load_convention(self, convention, version, paths=None):"), (SO, '''        paths = _get_conventions("path")
''', '''        if paths is None:
            paths = _get_conventions("path")
'''))
r("sh-class-const", (SO, "    _protected = False\n", '''    _protected = False
    # flags of an entry that was added by the user
    _CUSTOM_ENTRY = {"default": None, "comment": ""}
'''), (SO, '''            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
''', '''            self._custom[key] = {
                **self._CUSTOM_ENTRY, "flags": flags,
                "dimensions": dimensions, "type": dtype}
'''))
r("sh-read-only-append", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        self._read_only_attr = []
        for key in self._convention:
            if self._read_only(self._convention[key]["flags"]):
                self._read_only_attr.append(key)
'''))

# ---- upgrades
OLD_UP = '''        # check if convention is deprecated -----------------------------------
        is_deprecated = False

        if convention_current in deprecations["GLOBAL:SOFAConventions"]:
            is_deprecated = True
        elif convention_current in upgrade:
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    is_deprecated = True
                    break
'''
r("up-any-deprecated", (SO, OLD_UP, '''        # check if convention is deprecated -----------------------------------
        is_deprecated = \\
            convention_current in deprecations["GLOBAL:SOFAConventions"] or (
                convention_current in upgrade and any(
                    version_current in from_to[0] for from_to
                    in upgrade[convention_current]["from_to"]))
'''))
r("up-find-rule", (SO, '''            # check if upgrade is available for this version
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    targets = from_to[1]

                    if target in targets:
                        target_id = from_to[2]
                    else:
                        if target is not None:
                            print(f"{target} is invalid.")

                        upgrades = (
                            f"{convention_current} v{version_current} "
                            "can be upgraded to:\\n")
                        for t in targets:
                            t = t.split("_")
                            upgrades += f"- {t[0]} v{t[1]}\\n"
                        print(upgrades)
                        return targets
                    break
            else:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
''', '''            # check if upgrade is available for this version
            rule = self._find_rule(
                upgrade[convention_current]["from_to"], version_current)
            if rule is None:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
            targets, target_id = rule[1], rule[2]
            if target not in targets:
                if target is not None:
                    print(f"{target} is invalid.")

                upgrades = (
                    f"{convention_current} v{version_current} "
                    "can be upgraded to:\\n")
                for t in targets:
                    t = t.split("_")
                    upgrades += f"- {t[0]} v{t[1]}\\n"
                print(upgrades)
                return targets
'''), (SO, '''    def _apply_upgrade(self, upgrade):''', '''    @staticmethod
    def _find_rule(rules, version):
        """Find the rule that applies to a version."""
        for rule in rules:
            if version in rule[0]:
                return rule
        return None

    def _apply_upgrade(self, upgrade):'''))
r("up-next-rule", (SO, '''            # check if upgrade is available for this version
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    targets = from_to[1]

                    if target in targets:
                        target_id = from_to[2]
                    else:
                        if target is not None:
                            print(f"{target} is invalid.")

                        upgrades = (
                            f"{convention_current} v{version_current} "
                            "can be upgraded to:\\n")
                        for t in targets:
                            t = t.split("_")
                            upgrades += f"- {t[0]} v{t[1]}\\n"
                        print(upgrades)
                        return targets
                    break
            else:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
''', '''            # check if upgrade is available for this version
            rule = next((r for r in upgrade[convention_current]["from_to"]
                         if version_current in r[0]), None)
            if rule is None:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
            _, targets, target_id = rule
            if target not in targets:
                if target is not None:
                    print(f"{target} is invalid.")
                upgrades = "".join(
                    f"- {t.split('_')[0]} v{t.split('_')[1]}\\n"
                    for t in targets)
                print(f"{convention_current} v{version_current} "
                      f"can be upgraded to:\\n{upgrades}")
                return targets
'''))
r("up-early-returns", (SO, '''                    if target in targets:
                        target_id = from_to[2]
                    else:
                        if target is not None:
                            print(f"{target} is invalid.")

                        upgrades = (
                            f"{convention_current} v{version_current} "
                            "can be upgraded to:\\n")
                        for t in targets:
                            t = t.split("_")
                            upgrades += f"- {t[0]} v{t[1]}\\n"
                        print(upgrades)
                        return targets
                    break
''', '''                    target_id = from_to[2]
                    if target in targets:
                        break
                    if target is not None:
                        print(f"{target} is invalid.")
                    self._print_targets(
                        convention_current, version_current, targets)
                    return targets
'''), (SO, '''    def _apply_upgrade(self, upgrade):''', '''    def _print_targets(self, convention, version, targets):
        upgrades = f"{convention} v{version} can be upgraded to:\\n"
        for t in targets:
            t = t.split("_")
            upgrades += f"- {t[0]} v{t[1]}\\n"
        print(upgrades)

    def _apply_upgrade(self, upgrade):'''))
r("up-apply-helpers", (SO, '''        for source, move in upgrade["move"].items():
            # get info
            source_sofar = source.replace(".", '_').replace(":", "_")
            target_sofar = move["target"].replace(".", '_').replace(":", "_")
''', '''        for source in upgrade["move"]:
            move = upgrade["move"][source]
            # get info
            source_sofar = self._sofar_name(source)
            target_sofar = self._sofar_name(move["target"])
'''), (SO, '''            target_sofar = target.replace(".", '_').replace(":", "_")
            # nothing to delete if optional data are not contained
            if not hasattr(self, target_sofar):
                continue
            delattr(self, target_sofar)
            print(f"- Deleting {target_sofar}.")
''', '''            target_sofar = self._sofar_name(target)
            # nothing to delete if optional data are not contained
            if hasattr(self, target_sofar):
                delattr(self, target_sofar)
                print(f"- Deleting {target_sofar}.")
'''), (SO, '''    def _apply_upgrade(self, upgrade):''', '''    @staticmethod
    def _sofar_name(name):
        """Name of an entry in a SOFA object."""
        for char in ".:":
            name = name.replace(char, "_")
        return name

    def _apply_upgrade(self, upgrade):'''))
r("up-regex-names", (SO, '''            source_sofar = source.replace(".", '_').replace(":", "_")
            target_sofar = move["target"].replace(".", '_').replace(":", "_")
''', '''            source_sofar = re.sub("[.:]", "_", source)
            target_sofar = re.sub("[.:]", "_", move["target"])
'''), (SO, "import os\n", "import os\nimport re\n"))
r("up-axes-helper", (SO, '''            moveaxis = upgrade["move"][source]["moveaxis"]
            if moveaxis is not None:
                # add dimensions if required
                # (sofar discards trailing singular dimensions)
                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
                # move the axis
                data = np.moveaxis(data, moveaxis[0], moveaxis[1])
''', '''            moveaxis = move["moveaxis"]
            if moveaxis is not None:
                # move the axis (sofar discards trailing singular dimensions)
                data = _nd_newaxis(data, max(moveaxis) + 1)
                first, second = moveaxis
                data = np.moveaxis(data, source=first, destination=second)
'''))
r("up-verify-flat", (SO, '''        if verify == 'auto':
            version = self.GLOBAL_SOFAConventionsVersion
            verify = True if parse(version) >= parse('1.0') else False
        if verify:
            self.verify()
''', '''        if verify == 'auto':
            verify = not parse(version_target) < parse('1.0')
        if not verify:
            return
        self.verify()
'''))
r("up-four-lines", (SO, '''        for key in keys:
            setattr(self, key, self._convention[key]["default"])

        # move data''', '''        table = self._convention
        for key in keys:
            setattr(self, key, str(table[key]["default"]))

        # move data'''))

# ---- new and completed objects
r("new-wanted-list", (SO, '''        for key in self._convention.keys():

            # skip optional fields if requested
            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
                continue

            # get the default value
            default = self._convention[key]["default"]
''', '''        wanted = [key for key, value in self._convention.items()
                  if self._mandatory(value["flags"]) or not mandatory]
        for key in wanted:

            # get the default value
            default = self._convention[key]["default"]
'''))
r("new-items", (SO, '''        for key in self._convention.keys():

            # skip optional fields if requested
            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
                continue

            # get the default value
            default = self._convention[key]["default"]
            if isinstance(default, list):
                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)

            # create attribute with default value
            setattr(self, key, default)
''', '''        for key, entry in self._convention.items():
            # skip optional fields if requested
            if self._mandatory(entry["flags"]) or not mandatory:
                setattr(self, key, self._default(entry))
'''), (SO, '''    @staticmethod
    def _mandatory(flags):''', '''    @staticmethod
    def _default(entry):
        """Get the default value of an entry."""
        default = entry["default"]
        if not isinstance(default, list):
            return default
        ndim = len(entry["dimensions"].split(", ")[0])
        return _atleast_nd(default, ndim)

    @staticmethod
    def _mandatory(flags):'''))
r("new-verify-nested", (SO, '''            if verify == 'auto':
                verify = True if parse(version) >= parse('1.0') else False

            # add and update the API
            # (mandatory=False can not be verified because some conventions
            # have default values that have optional variables as dependencies)
            if verify and not mandatory:
                self.verify(mode="read")
            # warning for preliminary conventions if verification is bypassed
            elif parse(version) < parse('1.0'):
''', '''            preliminary = parse(version) < parse('1.0')
            do_verify = not mandatory and (
                not preliminary if verify == 'auto' else bool(verify))

            # add and update the API
            # (mandatory=False can not be verified because some conventions
            # have default values that have optional variables as dependencies)
            if do_verify:
                self.verify("raise", "read")
            # warning for preliminary conventions if verification is bypassed
            elif preliminary:
'''))
r("miss-nested", (SO, '''            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''            if key in keys:
                continue
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            wanted = mandatory if is_mandatory else optional
            if not wanted:
                continue
            # add with default
            setattr(self, key, self._convention[key]["default"])
            kind = 'mandatory' if is_mandatory else 'optional'
            added += f"- {key} ({kind})\\n"
'''))
r("miss-collect", (SO, '''        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''        kinds = []
        if mandatory:
            kinds.append("mandatory")
        if optional:
            kinds.append("optional")
        for key in [k for k in self._convention if k not in keys]:
            kind = "mandatory" if self._mandatory(
                self._convention[key]["flags"]) else "optional"
            # add with default
            if kind in kinds:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} ({kind})\\n"
'''))

# ---- selecting a convention
LC = '''        path = [path for path in paths
                if os.path.basename(path).startswith(convention + "_")]
'''
LV = '''        # get available versions as strings
        versions = [p.split('_')[-1][:-5] for p in path]

        # select the correct version
        if version == "latest":
            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
        else:
            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
'''
r("sel-split-name", (SO, LC, '''        path = []
        for p in paths:
            if os.path.basename(p).split("_")[0] == convention:
                path.append(p)
'''))
r("sel-rsplit", (SO, LC, LC.replace('os.path.basename(path).startswith(convention + "_")', "os.path.split(path)[1].rsplit('_', 1)[0] == convention")))
r("sel-version-helper", (SO, LV, LV.replace("p.split('_')[-1][:-5]", "self._file_version(p)")), (SO, '''    def _convention_to_sofa(self, mandatory):''', '''    @staticmethod
    def _file_version(path):
        """Get the version from the name of a convention file."""
        name, _ = os.path.splitext(os.path.basename(path))
        return name.split("_")[-1]

    def _convention_to_sofa(self, mandatory):'''))
r("sel-dict", (SO, LV, '''        # get available versions as strings
        files = {p.split('_')[-1][:-5]: p for p in path}

        # select the correct version
        if version == "latest":
            version = max(files, key=float)
        if version not in files:
            raise ValueError((
                f"Version {version} not found. "
                f"Available versions are {list(files)}"))
        path = files[version]
'''))
r("sel-max-key", (SO, LV, LV.replace('''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            path = max(path, key=lambda p: float(p.split('_')[-1][:-5]))
''')))
r("sel-sorted-key", (SO, LV, LV.replace('''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            path = sorted(
                path, key=lambda p: float(p.split('_')[-1][:-5]))[-1]
''')))
r("sel-index-max", (SO, LV, LV.replace('''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            numbers = [float(v) for v in versions]
            path = path[numbers.index(max(numbers))]
''')))
r("sel-next", (SO, LV, LV.replace('''            path = path[versions.index(version)]
''', '''            path = next(p for p in path
                        if p.split('_')[-1][:-5] == version)
''')))
r("sel-filter-first", (SO, LV, LV.replace('''            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
''', '''            found = [p for p, v in zip(path, versions) if v == version]
            if not found:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = found[0]
''')))
r("sel-one-dict", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}
''', '''        convention = {
            key.replace(':', '_').replace('.', '_'): convention[key]
            for key in convention}
'''))
r("sel-folders-loop", (UT, '''    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
    deprecated = list(
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
    paths = standardized + deprecated
''', '''    paths = []
    for folder in ("", "deprecated"):
        paths += glob.glob(os.path.join(conventions_path, folder, reg_str))
'''))

# ------------------------------------------------------------------- C20
SZ = '''        S = 0
        for key in keys:

            value = getattr(self, key)
            dimensions = self._convention[key]["dimensions"]

            # - dimensions are given as string, e.g., 'mRN', or 'IC, MC'
            # - defined by lower case letters in `dimensions`
            for idx, dim in enumerate(dimensions.split(", ")[0]):
                if dim not in "ICS" and dim.islower():
                    # numeric data
                    self._api[dim.upper()] = \\
                        _nd_newaxis(value, 4).shape[idx]
                if dim == "S":
                    # string data
                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))

        # add fixed sizes
        self._api["C"] = 3
        self._api["I"] = 1
        self._api["S"] = S
'''
r("dim-local-table", (SO, SZ, SZ.replace("self._api[", "sizes[").replace("        S = 0\n", "        S = 0\n        sizes = {}\n", 1) + '''        self.protected = False
        self._api = sizes
        self.protected = True
'''))
r("dim-helper", (SO, SZ, '''        self._get_sizes(keys)
'''), (SO, "    @staticmethod\n    def _verify_value(", '''    def _get_sizes(self, keys):
        """Get the size of all dimensions."""
''' + SZ + '''
    @staticmethod
    def _verify_value('''))
r("dim-zip-shape", (SO, SZ, SZ.replace('''            for idx, dim in enumerate(dimensions.split(", ")[0]):
''', '''            shape = _nd_newaxis(value, 4).shape \\
                if not isinstance(value, str) else ()
            for idx, dim in enumerate(dimensions.split(", ")[0]):
''').replace('''self._api[dim.upper()] = \\
                        _nd_newaxis(value, 4).shape[idx]
''', '''self._api[dim.upper()] = shape[idx]
''')))
r("dim-update-fixed", (SO, SZ, SZ.replace('''        self._api["C"] = 3
        self._api["I"] = 1
        self._api["S"] = S
''', '''        self._api.update({"C": 3, "I": 1, "S": S})
''')))
r("dim-elif", (SO, SZ, SZ.replace('''                if dim == "S":
''', '''                elif dim == "S":
''')))
r("dim-get-key-error", (SO, '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        if dimension in self._api:
            return self._api[dimension]

        raise ValueError((
            f"{dimension} is not a valid dimension. "
            "See Sofa.list_dimensions for a list of valid dimensions."))
'''))
r("dim-get-try", (SO, '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        try:
            return self._api[dimension]
        except KeyError:
            raise ValueError((
                f"{dimension} is not a valid dimension. See "
                "Sofa.list_dimensions for a list of valid dimensions.")
                ) from None
'''))
r("dim-update-any", (SO, '''        issues = self.verify(issue_handling="return")
        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
            raise''', '''        issues = self.verify(issue_handling="return") or ""
        fatal = ("data of wrong type", "variables of wrong shape")
        if any(text in issues for text in fatal):
            raise'''))
r("dim-update-early", (SO, '''        issues = self.verify(issue_handling="return")
        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
            raise''', '''        issues = self.verify(issue_handling="return")
        if issues is None:
            return
        if "wrong type" in issues or "wrong shape" in issues:
            raise'''))
r("dim-list-join", (SO, '''        for key, value in self._api.items():
            dim_info''', '''        for key in self._api:
            value = self._api[key]
            dim_info'''))
r("dim-inspect-names", (SO, '''                shape_verbose = "("
                for s, d in zip(shape, dimension):
                    shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                names = [f"{d}={s}" for d, s in zip(dimension, shape)]

                # add shape information
                info_str += "(" + ", ".join(names) + ")\\n"
'''))
r("dim-local-dimensions", (SO, "            shape_matched = False\n            for dim", "            shape_matched = False\n            for dim"), (SO, '''        # 5. verify dimensions of data
        current_error = ""
''', '''        # 5. verify dimensions of data
        matched = {}
        current_error = ""
'''), (SO, "                    self._dimensions[key] = dim.upper()\n", "                    matched[key] = dim.upper()\n"), (SO, '''        if current_error:
            error_msg += "Detected variables of wrong shape:\\n"
''', '''        self._dimensions.update(matched)
        if current_error:
            error_msg += "Detected variables of wrong shape:\\n"
'''))

# ------------------------------------------------------------------- C22
UC = "update_conventions"
r("loop-list-copy", (UC, "for convention in sofaconventions.copy():", "for convention in list(sofaconventions):"), (UC, "for convention in sofatoolbox.copy():", "for convention in sofatoolbox[:]:"))
r("loop-tuple-copy", (UC, "for convention in sofaconventions.copy():", "for convention in tuple(sofaconventions):"), (UC, "    for convention in sofatoolbox.copy():\n", "    names = sofatoolbox.copy()\n    for convention in names:\n"))
r("loop-remove-break", (UC, "    for convention in sofatoolbox.copy():\n", "    for convention in sofatoolbox:\n        if convention == '.csv':\n            sofatoolbox.remove(convention)\n            break\n    for convention in sofatoolbox.copy():\n"))
r("loop-custom-list", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in list(self._custom):
                if key in self._convention:
                    del self._custom[key]
'''))
r("loop-custom-comp", (SO, '''            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]
''', '''            for key in [k for k in self._custom if k in self._convention]:
                self._custom.pop(key)
'''))
r("loop-set-own-value", (SO, '''            for key in self._custom:
                self._convention[key] = self._custom[key]

    def''', '''            for key in self._custom:
                self._custom[key] = dict(self._custom[key])
                self._convention[key] = self._custom[key]

    def'''))
r("loop-filter-lists", (UC, '''    for convention in sofatoolbox.copy():
        if convention.startswith(("General_", "GeneralString_")):
            sofatoolbox.remove(convention)
        elif convention not in sofaconventions:
            sofatoolbox.remove(convention)
            report +=''', '''    sofatoolbox = [
        name for name in sofatoolbox
        if not name.startswith(("General_", "GeneralString_"))]
    for convention in sofatoolbox:
        if convention not in sofaconventions:
            report +='''))

# ------------------------------------------------------------- SofaStream (C19)
CONT = "        if name_netcdf in dset_variables and not is_global:\n"
r("st-return-directly", (SS, """            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)
""", """            variable = self._file.variables[name_netcdf]
            if var_attr is not None:
                return variable.getncattr(var_attr)
            return variable
"""), (SS, """            self._data = self._file.getncattr(name_netcdf)

        else:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        return self._data
""", """            return self._file.getncattr(name_netcdf)

        raise AttributeError(f"{name} is not contained in SOFA-file")
"""))
r("st-try-key", (SS, """        if name_netcdf in dset_variables and not is_global:
            # get variable from SOFA-file
            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)
""", """        if not is_global:
            # get variable from SOFA-file
            try:
                self._data = self._file.variables[name_netcdf]
            except KeyError as error:
                raise AttributeError(
                    f"{name} is not contained in SOFA-file") from error
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)
"""))
r("st-get-none", (SS, """        if name_netcdf in dset_variables and not is_global:
            # get variable from SOFA-file
            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
""", """        variable = self._file.variables.get(name_netcdf)
        if variable is not None and not is_global:
            # get variable from SOFA-file
            self._data = variable
            if var_attr is not None:
"""))
r("st-plain-lists", (SS, """        dset_variables = np.array(list(self._file.variables.keys()))
        dset_attributes = np.asarray(self._file.ncattrs())
""", """        dset_variables = self._file.variables
        dset_attributes = set(self._file.ncattrs())
"""))
r("st-file-init", (SS, "        self._filename = filename\n", "        self._filename = filename\n        self._file = None\n"),
  (SS, "        file = self.__dict__.get('_file')\n        if file is None or not file.isopen():", "        if self._file is None or not self._file.isopen():"))
r("st-forget-file", (SS, "        self._filename = filename\n", "        self._filename = filename\n        self._file = None\n"),
  (SS, "        file = self.__dict__.get('_file')\n        if file is None or not file.isopen():", "        if self._file is None:"),
  (SS, "        self._file.close()\n", "        self._file.close()\n        self._file = None\n"))
r("st-in-dict", (SS, "        file = self.__dict__.get('_file')\n        if file is None or not file.isopen():", "        if '_file' not in self.__dict__ or not self._file.isopen():"))
r("st-dunder-first", (SS, "        file = self.__dict__.get('_file')\n        if file is None or not file.isopen():", """        if name.startswith("_"):
            raise AttributeError(f"{name} is not contained in SOFA-file")
        if not hasattr(self, "_file") or not self._file.isopen():"""))
r("st-open-helper", (SS, """        self._file = Dataset(self._filename, mode="r")
        return self
""", """        self._file = self._open()
        return self

    def _open(self):
        \"\"\"Open the file for reading.\"\"\"
        return Dataset(self._filename)
"""))
r("st-dim-try", (SS, """        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
""", """        try:
            return dims[dimension].size
        except KeyError as error:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."
            )) from error
"""))
r("st-dim-flip", (SS, """        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
""", """        if dimension in dims:
            return len(dims[dimension])

        raise ValueError((
            f"{dimension} is not a valid dimension. "
            "See Sofa.list_dimensions for a list of valid dimensions."))
"""))
r("st-dim-sizes", (SS, """        dims = self._file.dimensions

        if dimension not in dims.keys():
""", """        sizes = {name: d.size for name, d in self._file.dimensions.items()}

        if dimension not in sizes:
"""), (SS, "        return dims[dimension].size\n", "        return sizes[dimension]\n"))
r("st-exit-named", (SS, "    def __exit__(self, *args):\n", "    def __exit__(self, exc_type, exc_value, traceback):\n"),
  (SS, "        self._file.close()\n", "        if self._file.isopen():\n            self._file.close()\n        return False\n"))
r("st-attr-try", (SS, """        elif name_netcdf in dset_attributes and is_global:
            # get attribute value from SOFA-file
            self._data = self._file.getncattr(name_netcdf)
""", """        elif is_global:
            # raises an AttributeError if the file does not have it
            self._data = self._file.getncattr(name_netcdf)
"""))
r("st-names", (SS, "        # get value if passed attribute points to a netCDF4-variable\n", """        names = list(self._file.variables)
        if not is_global and name_netcdf in names and var_attr is None:
            return self._file[name_netcdf]
"""))

# ------------------------------------------------------- compilation (C23)
r("comp-folders", (UC, '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))

    for csv_file in csv_files:

        # convert SOFA conventions from csv to json
        convention_dict = _convention_csv2dict(csv_file)
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''    for folder in ("", "deprecated"):
        pattern = os.path.join(conventions_path, folder, "*.csv")
        for csv_file in sorted(glob.glob(pattern)):

            # convert SOFA conventions from csv to json
            convention_dict = _convention_csv2dict(csv_file)
            with open(f"{csv_file[:-3]}json", 'w') as file:
                json.dump(convention_dict, file, indent=4)
'''))
r("comp-splitext", (UC, '''        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''        json_file = os.path.splitext(csv_file)[0] + ".json"
        with open(json_file, 'w') as file:
            file.write(json.dumps(convention_dict, indent=4))
'''))
r("comp-extend", (UC, '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))
''', '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv"))
    csv_files.extend(
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv")))
'''))
r("comp-helper", (UC, '''        convention_dict = _convention_csv2dict(csv_file)
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''        _compile_convention(csv_file)


def _compile_convention(csv_file):
    """Compile a single convention."""
    convention_dict = _convention_csv2dict(csv_file)
    with open(f"{csv_file[:-3]}json", 'w') as file:
        json.dump(convention_dict, file, indent=4)
'''))
r("comp-exception", (UC, "        except:  # noqa: E722\n            raise ValueError((f\"Failed", "        except Exception:\n            raise ValueError((f\"Failed"))
r("comp-entry-first", (UC, '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            convention[line[0]] = {
                field.lower(): line[ff + 1]
                for ff, field in enumerate(fields)}
'''))
r("comp-entry-local", (UC, '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            entry = {}
            for ff, field in enumerate(fields, start=1):
                entry[field.lower()] = line[ff]
            convention[line[0]] = entry
'''))
r("comp-lower-header", (UC, "                fields = line[1:]\n", "                fields = [field.lower() for field in line[1:]]\n"),
  (UC, "[field.lower()] = line[ff + 1]", "[field] = line[ff + 1]"))
r("comp-move-local", (UC, '''        if key.startswith("Data"):
            convention[key] = convention.pop(key)
''', '''        if key.startswith("Data"):
            entry = convention.pop(key)
            convention[key] = entry
'''))
r("comp-rebuild", (UC, '''    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    ordered = {k: v for k, v in convention.items()
               if not k.startswith("Data")}
    ordered.update({k: v for k, v in convention.items()
                    if k.startswith("Data")})

    return ordered
'''))
r("comp-sorted-keys", (UC, '''    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    keys.sort(key=lambda key: (
        "GLOBAL" not in key, key.startswith("Data")))

    return {key: convention[key] for key in keys}
'''))
r("comp-cell-helper", (UC, '''    # write into dict
    convention = {}
    for idl, line in enumerate(lines):
''', '''    return _parse_lines(lines, file)


def _parse_lines(lines, file):
    """Parse the lines of a csv file."""
    # write into dict
    convention = {}
    for idl, line in enumerate(lines):
'''))
r("comp-while", (UC, '''    with open(file, 'r', encoding="windows-1252") as fid:
        lines = fid.readlines()
''', '''    with open(file, encoding="windows-1252") as fid:
        lines = list(fid)
'''))
r("comp-else", (UC, '''            if idl == 0:
                fields = line[1:]
                continue

            # add blank comment if it does not exist
            if len(line) == 5:
                line.append("")
''', '''            is_header = idl == 0
            if is_header:
                fields = line[1:]
                continue

            # add blank comment if it does not exist
            if len(line) == 5:
                line += [""]
'''))

# --------------------------------------------------- update_conventions
r("upd-answer-in", (UC, 'if response != "y":', 'if response not in ("y",):'))
r("upd-answer-not", (UC, '''            if response != "y":
                print("\\nUpdating the conventions was canceled.")
                return
''', '''            confirmed = response == "y"
            if not confirmed:
                print("\\nUpdating the conventions was canceled.")
                return None
'''))
r("upd-answer-else", (UC, '''            if response != "y":
                print("\\nUpdating the conventions was canceled.")
                return
''', '''            if response == "y":
                print("Updating ...")
            else:
                print("\\nUpdating the conventions was canceled.")
                return
'''))
r("upd-helper-ask", (UC, '''        if updated and not assume_yes:
            # these lines were only tested manually. I was too lazy to write a
            # test coping with keyboard input
            print(("\\nDo you want to update the conventions above? (y/n)\\n"
                   "Read the documentation before continuing. "
                   "If updating breaks sofar it has to be re-installed"))
            response = input()
            if response != "y":
                print("\\nUpdating the conventions was canceled.")
                return
''', '''        if updated and not (assume_yes or _confirm()):
            print("\\nUpdating the conventions was canceled.")
            return
'''), (UC, "def _compile_conventions(", '''def _confirm():
    """Ask the user."""
    print(("\\nDo you want to update the conventions above? (y/n)\\n"
           "Read the documentation before continuing. "
           "If updating breaks sofar it has to be re-installed"))
    return input() == "y"


def _compile_conventions('''))
r("upd-not-updated-first", (UC, '''        if updated:
            for convention in update:
''', '''        if not updated:
            print("... conventions already up to date.")
        else:
            for convention in update:
'''), (UC, '''            print("... done.")
        else:
            print("... conventions already up to date.")
''', '''            print("... done.")
'''))
r("upd-no-flag", (UC, "        if updated and not assume_yes:\n", "        updated = bool(update or deprecate)\n        if updated and not assume_yes:\n"))
r("upd-copyfile", (UC, '''                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
''', '''                source = os.path.join(temp, convention)
                target = os.path.join(conventions_path, convention)
                shutil.copyfile(source, target)
'''))
r("upd-replace", (UC, '''            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
''', '''            for convention in deprecate:
                old = os.path.join(conventions_path, convention)
                os.remove(old)
                os.remove(old[:-3] + "json")
'''))
r("upd-two-removals", (UC, '''            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
''', '''            for convention in deprecate:
                for name in (convention, convention[:-3] + "json"):
                    os.remove(os.path.join(conventions_path, name))
'''))
r("upd-tuple-list", (UC, '''                update.append(os.path.join('deprecated', convention))

        if updated''', '''                update.append(os.path.join('deprecated', convention))
        n_changed = len(update) + len(deprecate)
        print(f"{n_changed} changes")

        if updated'''))
r("upd-helper-read", (UC, '''                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                if''', '''                data_current = _read_csv(standardized_csv)
                if'''), (UC, '''                with open(deprecated_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
''', '''                data_current = _read_csv(deprecated_csv)
'''), (UC, "def _compile_conventions(", '''def _read_csv(path):
    """Read csv with unified line breaks."""
    with open(path, "rb") as file:
        content = file.read()
    return _unify(content)


def _unify(data):
    return data.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")


def _compile_conventions('''), (UC, '''            data = data.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
''', '''            data = _unify(data.content)
'''))
r("upd-helper-stage", (UC, '''                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention''', '''                _stage(data, temp, convention)
                print(f"- add convention'''), (UC, '''                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                print(f"- deprecate''', '''                _stage(data, temp, 'deprecated', convention)
                print(f"- deprecate'''), (UC, "def _compile_conventions(", '''def _stage(data, *path):
    """Write data to a file."""
    with open(os.path.join(*path), "wb") as file:
        file.write(data)


def _compile_conventions('''))
r("upd-helper-names", (UC, '''    page = requests.get(urls[0])
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    standardized = [os.path.split(node.get('href'))[1]
                    for node in soup.find_all('a')
                    if node.get('href').endswith(ext)]
    page = requests.get(urls[1])
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    deprecated = [os.path.split(node.get('href'))[1]
                  for node in soup.find_all('a')
                  if node.get('href').endswith(ext)]
''', '''    standardized = _listed(urls[0], ext)
    deprecated = _listed(urls[1], ext)
'''), (UC, "def _compile_conventions(", '''def _listed(url, ext):
    """Names of the conventions listed on a web page."""
    page = requests.get(url)
    page.raise_for_status()
    names = []
    for node in BeautifulSoup(page.text, 'html.parser').find_all('a'):
        href = node.get('href')
        if href.endswith(ext):
            names.append(os.path.basename(href))
    return names


def _compile_conventions('''))
r("upd-status-code", (UC, "            data.raise_for_status()\n", '''            if not data.ok:
                raise requests.HTTPError(f"Could not download {url}")
'''))
r("upd-skip-helper", (UC, '''            if convention.startswith(("General_", "GeneralString_")):
                continue
''', '''            excluded = ("General_", "GeneralString_")
            if any(convention.startswith(x) for x in excluded):
                continue
'''))
r("upd-nested-if", (UC, '''            if is_standardized and not os.path.isfile(standardized_csv):
''', '''            has_standardized = os.path.isfile(standardized_csv)
            if is_standardized and not has_standardized:
'''), (UC, '''            if is_standardized and os.path.isfile(standardized_csv):
''', '''            if is_standardized and has_standardized:
'''), (UC, '''            elif not is_standardized and os.path.isfile(standardized_csv):
''', '''            elif not is_standardized and has_standardized:
'''))
r("upd-helper-install", (UC, '''            for convention in update:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
            for convention in deprecate:
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''            _install(update, temp, conventions_path)
            _install(deprecate, os.path.join(temp, 'deprecated'),
                     os.path.join(conventions_path, 'deprecated'))
'''), (UC, "def _compile_conventions(", '''def _install(names, source, target):
    """Copy files."""
    for name in names:
        shutil.copy(os.path.join(source, name), os.path.join(target, name))


def _compile_conventions('''))
r("upd-dict", (UC, '''    update = []
    deprecate = []
''', '''    update, deprecate = [], []
'''), (UC, '''    conventions = standardized + deprecated
''', '''    conventions = [*standardized, *deprecated]
'''))
r("upd-set", (UC, '''            is_standardized = convention in standardized
''', '''            is_standardized = convention in set(standardized)
'''))
r("upd-staged-dict", (UC, '''                updated = True
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
                update.append(convention)
''', '''                updated = True
                print(f"- add convention: {convention[:-4]}")
                new[convention] = data
'''), (UC, '''    deprecate = []

''', '''    deprecate = []
    new = {}

'''), (UC, '''        if updated:
            for convention in update:
''', '''        if updated:
            for convention, data in new.items():
                with open(os.path.join(conventions_path, convention),
                          "wb") as file:
                    file.write(data)
            for convention in update:
'''))
r("upd-staged-list", (UC, '''                updated = True
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
                update.append(convention)
''', '''                updated = True
                print(f"- add convention: {convention[:-4]}")
                new.append((convention, data))
'''), (UC, '''    deprecate = []

''', '''    deprecate = []
    new = []

'''), (UC, '''        if updated:
            for convention in update:
''', '''        if updated:
            for convention, data in new:
                with open(os.path.join(conventions_path, convention),
                          "wb") as file:
                    file.write(data)
            for convention in update:
'''))
r("upd-pairs", (UC, '''            for convention in update:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
            for convention in deprecate:
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''            changed = update + [os.path.join('deprecated', name)
                                for name in deprecate]
            for convention in changed:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
'''))
r("upd-copy-to-folder", (UC, '''                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated'))
'''))
r("upd-continue", (UC, '''                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
                    update.append(convention)
''', '''                if data_current == data:
                    continue
                updated = True
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- update convention: {convention[:-4]}")
                update.append(convention)
'''))
r("upd-classify", (UC, '''            url = (
                f"{urls[0]}/{convention}"
                if is_standardized
                else f"{urls[1]}/{convention}"
            )
''', '''            if is_standardized:
                url = f"{urls[0]}/{convention}"
            else:
                url = f"{urls[1]}/{convention}"
'''), (UC, '''        if updated and not assume_yes:
''', '''        if updated and assume_yes is False:
'''))

# --------------------------------------------------------- text encodings
r("enc-explicit-rules", (SO, 'os.path.join(base, "rules.json"), "r")', 'os.path.join(base, "rules.json"), "r", encoding="utf-8")'))
r("enc-explicit-version", (UT, "with open(sofa_conventions) as file:", "with open(sofa_conventions, 'r', encoding='utf-8') as file:"))
r("enc-explicit-json", (UC, "json\", 'w') as file", "json\", 'w', encoding='utf-8') as file"))
r("enc-name", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, encoding="UTF8")'), (W, 'np.char.encode(value, "utf-8")', 'np.char.encode(value, encoding="utf8")'))
r("enc-constant", (W, 'chartostring(value, encoding="utf-8")', 'chartostring(value, encoding=_ENCODING)'), (W, 'np.char.encode(value, "utf-8")', 'np.char.encode(value, _ENCODING)'), (W, "def _format_value_for_netcdf(", '_ENCODING = "utf-8"\n\n\ndef _format_value_for_netcdf('))
r("enc-helper", (W, '''        if value.dtype.kind != "S":
            value = np.char.encode(value, "utf-8")
''', '''        value = _as_bytes(value)
'''), (W, "def _format_value_for_netcdf(", '''def _as_bytes(value):
    if value.dtype.kind == "S":
        return value
    return np.char.encode(value, "utf-8")


def _format_value_for_netcdf('''))
r("enc-equals-helper", (UT, '''            a, b = [np.char.decode(s, "utf-8") if s.dtype.kind == "S"
                    else s.astype("U") for s in (np.squeeze(a), np.squeeze(b))]
''', '''            a, b = _as_text(a), _as_text(b)
'''), (UT, "def _equals_raise_warning(", '''def _as_text(value):
    """Squeezed strings."""
    value = np.squeeze(value)
    if value.dtype.kind == "S":
        return np.char.decode(value, "utf-8")
    return value.astype("U")


def _equals_raise_warning('''))
r("enc-dumps", (UC, "            json.dump(convention_dict, file, indent=4)\n\n\ndef", "            file.write(json.dumps(convention_dict, indent=4))\n\n\ndef"))
r("enc-path-open", (SO, '''            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")
''', '''            f_id = open(file, mode='w', encoding='utf-8')
            with f_id:
                f_id.write(info_str + "\\n")
'''))
r("enc-size", (SO, 's.encode("utf-8") if isinstance', 's.encode() if isinstance'))

# ------------------------------------------- refactorings function by function
r("ref-init-early", (SO, '''        # get convention
        if convention is not None:
            self._convention = self._load_convention(convention, version)

            # update read only attributes
            self._update_read_only_attr()

            # add attributes with default values
            self._convention_to_sofa(mandatory)

            # set default for verify
            version = \\
                self._convention['GLOBAL_SOFAConventionsVersion']['default']
            if verify == 'auto':
                verify = True if parse(version) >= parse('1.0') else False
''', '''        # empty object without convention
        if convention is None:
            self._convention = {}
            return

        self._convention = self._load_convention(convention, version)
        self._update_read_only_attr()
        self._convention_to_sofa(mandatory)
        self._init_verify(mandatory, verify)
        self.protected = True

    def _init_verify(self, mandatory, verify):
        """Verify upon initialization."""
        if True:
            version = \\
                self._convention['GLOBAL_SOFAConventionsVersion']['default']
            if verify == 'auto':
                verify = parse(version) >= parse('1.0')
'''), (SO, '''                    "invalidate data that was written before the changes.")),
                    stacklevel=2)

            self.protected = True
        else:
            verify = False
            self._convention = {}
''', '''                    "invalidate data that was written before the changes.")),
                    stacklevel=3)
'''))
r("ref-setattr-helper", (SO, '''        # convert to numpy array or scalar
        if not isinstance(value, (str, dict, np.ndarray)) \\
                and name != "protected":
            value = np.atleast_2d(value)
            if value.size == 1:
                value = value.flatten()[0]

        super.__setattr__(self, name, value)
''', '''        if name != "protected":
            value = self._convert(value)
        super.__setattr__(self, name, value)

    @staticmethod
    def _convert(value):
        """Convert to numpy array or scalar."""
        if isinstance(value, (str, dict, np.ndarray)):
            return value
        value = np.atleast_2d(value)
        return value.flatten()[0] if value.size == 1 else value
'''))
r("ref-setattr-nested", (SO, '''        # don't allow new attributes to be added outside the class
        if self.protected and not hasattr(self, name):
            raise TypeError(f"{name} is an invalid attribute")

        # don't allow setting read only attributes
        if name in self._read_only_attr and self.protected:
            raise TypeError((
''', '''        # don't allow adding or changing read only data from outside
        if self.protected:
            if not hasattr(self, name):
                raise TypeError(f"{name} is an invalid attribute")
            if name not in self._read_only_attr:
                return self._set(name, value)
            raise TypeError((
'''), (SO, '''        # convert to numpy array or scalar
        if not isinstance(value, (str, dict, np.ndarray)) \\
                and name != "protected":
''', '''        self._set(name, value)

    def _set(self, name, value):
        # convert to numpy array or scalar
        if not isinstance(value, (str, dict, np.ndarray)) \\
                and name != "protected":
'''))
r("ref-delattr-invert", (SO, '''        # delete anything if not frozen, delete non mandatory
        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)

            # check if custom field as to be deleted
            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")
''', '''        # don't delete mandatory data if frozen
        if self.protected and self._mandatory(
                self._convention[name]["flags"]):
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")

        super().__delattr__(name)

        # check if custom field as to be deleted
        custom = getattr(self, "_custom", {})
        if name in custom:
            del custom[name]
            self._convention.pop(name, None)
'''))
r("ref-delattr-and", (SO, '''            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
''', '''            if hasattr(self, "_custom") and name in self._custom:
                del self._custom[name]
                if name in self._convention:
                    del self._convention[name]
'''))
r("ref-listdim-table", (SO, '''        if self.GLOBAL_DataType.startswith("FIR"):
            N_verbose = "samples"
        elif self.GLOBAL_DataType.startswith("TF"):
            N_verbose = "frequencies"
        elif self.GLOBAL_DataType.startswith("SOS"):
            N_verbose = "SOS coefficients"
        else:
            N_verbose = "data points"
''', '''        N_verbose = "data points"
        for start, text in (("FIR", "samples"), ("TF", "frequencies"),
                            ("SOS", "SOS coefficients")):
            if self.GLOBAL_DataType.startswith(start):
                N_verbose = text
                break
'''))
r("ref-listdim-get", (SO, '''            dim_info = dimensions[key] if key in dimensions \\
                else "custom dimension"
''', '''            dim_info = dimensions.get(key, "custom dimension")
'''))
r("ref-listdim-lines", (SO, '''        info_str = ""
        for key, value in self._api.items():
            dim_info''', '''        lines = []
        for key, value in self._api.items():
            info_str = ""
            dim_info'''), (SO, '''                        break

            info_str += "\\n"

        print(info_str)
''', '''                        break

            lines.append(info_str + "\\n")

        print("".join(lines))
'''))
r("ref-listdim-next", (SO, '''                for key2, value2 in self._convention.items():
                    dim = value2["dimensions"]
                    if dim is not None and key.lower() in dim:
                        info_str += \\
                            f" (set by {key2} of dimension {dim.upper()})"
                        break
''', '''                setter = next(
                    (k for k, v in self._convention.items()
                     if v["dimensions"] is not None
                     and key.lower() in v["dimensions"]), None)
                if setter is not None:
                    dim = self._convention[setter]["dimensions"]
                    info_str += \\
                        f" (set by {setter} of dimension {dim.upper()})"
'''))
r("ref-getdim-try", (SO, '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        if dimension in self._api:
            return self._api[dimension]

        raise ValueError((
            f"{dimension} is not a valid dimension. "
            "See Sofa.list_dimensions for a list of valid dimensions."))
'''))
r("ref-updim-any", (SO, '''        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
            raise ValueError((''', '''        if issues is None:
            return
        fatal = any(text in issues for text in
                    ("data of wrong type", "variables of wrong shape"))
        if fatal or not hasattr(self, "_api"):
            raise ValueError(('''))
r("ref-info-skip", (SO, '''                flags = self._convention[key]["flags"]
                if (not self._mandatory(flags) and info == "mandatory") \\
                        or \\
                        (self._mandatory(flags) and info == "optional") \\
                        or \\
                        (not self._read_only(flags) and info == "read only") \\
                        or \\
                        (self._convention[key]['type'] == "attribute" and
                         info == "data"):
                    continue
''', '''                entry = self._convention[key]
                flags = entry["flags"]
                if self._skip(entry, info):
                    continue
'''), (SO, '''    def inspect(self, file=None, issue_handling="print"):
''', '''    def _skip(self, entry, info):
        """Is an entry not shown?"""
        mandatory = self._mandatory(entry["flags"])
        if info == "mandatory":
            return not mandatory
        if info == "optional":
            return mandatory
        if info == "read only":
            return not self._read_only(entry["flags"])
        return info == "data" and entry["type"] == "attribute"

    def inspect(self, file=None, issue_handling="print"):
'''))
r("ref-inspect-lines", (SO, '''        info_str += "-" * len(info_str) + "\\n"

        for key in keys:

            info_str += key + " : "
            value = getattr(self, key)
''', '''        info_str += "-" * len(info_str) + "\\n"

        for key in keys:

            value = getattr(self, key)
            info_str = f"{info_str}{key} : "
'''), (SO, '''                shape_verbose = "("
                for s, d in zip(shape, dimension):
                    shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                shape_verbose = ", ".join(
                    f"{d}={s}" for s, d in zip(shape, dimension))

                # add shape information
                info_str += "(" + shape_verbose + ")\\n"
'''))
r("ref-inspect-helper", (SO, '''        # list of all attributes
        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]

        # start printing the information
        info_str = (
            f"{self.GLOBAL_SOFAConventions} "
            F"{self.GLOBAL_SOFAConventionsVersion} "
            f"(SOFA version {self.GLOBAL_Version})\\n")
        info_str += "-" * len(info_str) + "\\n"

        for key in keys:

            info_str += key + " : "
''', '''        # list of all attributes
        keys = self._public_keys()
        info_str = self._headline()

        for key in keys:

            info_str += key + " : "
'''), (SO, '''    def add_missing(self, mandatory=True, optional=True, verbose=True):
''', '''    def _public_keys(self):
        return [k for k in vars(self) if k[0] != "_"]

    def _headline(self):
        line = (f"{self.GLOBAL_SOFAConventions} "
                f"{self.GLOBAL_SOFAConventionsVersion} "
                f"(SOFA version {self.GLOBAL_Version})\\n")
        return line + "-" * len(line) + "\\n"

    def add_missing(self, mandatory=True, optional=True, verbose=True):
'''))
r("ref-inspect-file", (SO, '''        # write to text file
        if file is not None:
            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")
''', '''        # write to text file
        if file is None:
            print(info_str)
            return
        with open(file, mode='w', encoding='utf-8') as f_id:
            f_id.write(f"{info_str}\\n")
'''))
r("ref-inspect-pad", (SO, '''                while len(shape) < len(dimension):
                    shape += (1, )
''', '''                shape = shape + (1, ) * (len(dimension) - len(shape))
'''))
r("ref-addmissing-continue", (SO, '''            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''            if key in keys:
                continue
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            # add with default
            if mandatory if is_mandatory else optional:
                setattr(self, key, self._convention[key]["default"])
                kind = 'mandatory' if is_mandatory else 'optional'
                added += f"- {key} ({kind})\\n"
'''))
r("ref-addmissing-items", (SO, '''        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
''', '''        for key, entry in self._convention.items():
            is_mandatory = self._mandatory(entry["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if add_data and key not in keys:
                setattr(self, key, entry["default"])
'''))
r("ref-addmissing-verbose", (SO, '''        if verbose:
            if "-" in added:
                print(added)
            else:
                print("All mandatory data contained.")
''', '''        if not verbose:
            return
        print(added if "-" in added else "All mandatory data contained.")
'''))
r("ref-add-kwargs", (SO, "        self._add_entry(name, value, dtype, dimensions)\n", "        self._add_entry(\n            name=name, value=value, dtype=dtype, dimensions=dimensions)\n"), (SO, "        self._add_entry(name, value, 'attribute', None)\n", "        self._add_entry(\n            name=name, value=value, dtype='attribute', dimensions=None)\n"))
r("ref-delete-inline", (SO, "        delattr(self, name)\n\n    @property\n    def protected", "        self.__delattr__(name)\n\n    @property\n    def protected"))
r("ref-protected-type", (SO, '''        if not isinstance(value, bool):
            raise ValueError("Sofa.protected can only be True or False")
        self._protected = value
''', '''        if value is True or value is False:
            self._protected = value
        else:
            raise ValueError("Sofa.protected can only be True or False")
'''))
r("ref-entry-check", (SO, '''        # check input
        if hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
        if dtype not in ["attribute", "double", "string"]:
            raise ValueError(
                f"dtype is {dtype} but must be attribute, double, or string")
        if "_" in name and dtype != "attribute":
            raise ValueError(("underscores '_' in the name are only "
                              "allowed for attributes"))
        if dtype == "attribute":
''', '''        self._check_entry(name, dtype, dimensions)
        if dimensions is not None:
            dimensions = dimensions.upper()
            if any(d not in "ERMNCIS" for d in dimensions):
                warnings.warn(
                    f"Added custom dimension {dimensions} to SOFA object",
                    stacklevel=3)

        # add attribute to class
        self._add_custom_api_entry(name, value, None, dimensions, dtype)

    def _check_entry(self, name, dtype, dimensions):
        """Check the input for adding entries."""
        if hasattr(self, name):
            raise ValueError(f"Entry {name} already exists")
        if dtype not in ["attribute", "double", "string"]:
            raise ValueError(
                f"dtype is {dtype} but must be attribute, double, or string")
        if "_" in name and dtype != "attribute":
            raise ValueError(("underscores '_' in the name are only "
                              "allowed for attributes"))
        if dtype == "attribute":
'''), (SO, '''                              "dtype double and string"))
        if dimensions is not None:
            dimensions = dimensions.upper()
            for dimension in dimensions:
                if dimension not in "ERMNCIS":
                    warnings.warn(
                        f"Added custom dimension {dimensions} to SOFA object",
                        stacklevel=2)

        # add attribute to class
        self._add_custom_api_entry(name, value, None, dimensions, dtype)
''', '''                              "dtype double and string"))
'''))
r("ref-entry-parent", (SO, '''            if not name.startswith("GLOBAL_") and \\
                    name[:name.rindex("_")] not in self._convention:
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {name[:name.rindex('_')]}"))
''', '''            parent = name[:name.rindex("_")]
            if parent != "GLOBAL" and parent not in self._convention:
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {parent}"))
'''))
r("ref-custom-finally", (SO, '''        try:
            setattr(self, key, value)
        except Exception:
            self.protected = True
            raise

        # lower case''', '''        try:
            setattr(self, key, value)
        finally:
            self.protected = True
        self.protected = False

        # lower case'''))
r("ref-custom-dict", (SO, '''            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
''', '''            entry = dict(flags=flags, dimensions=dimensions, type=dtype,
                         default=None, comment="")
            self._custom[key] = entry
            self._convention[key] = entry
'''))
r("ref-custom-dims", (SO, '''            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()
                          for d in dimensions]
            dimensions = "".join(dimensions)
''', '''            lowered = ""
            for d in dimensions:
                if d.upper() in "ERMNCIS":
                    lowered += d.upper()
                else:
                    lowered += d.lower()
            dimensions = lowered
'''))
r("ref-upgrade-helper", (SO, '''        is_deprecated = False

        if convention_current in deprecations["GLOBAL:SOFAConventions"]:
            is_deprecated = True
        elif convention_current in upgrade:
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    is_deprecated = True
                    break
''', '''        is_deprecated = \\
            convention_current in deprecations["GLOBAL:SOFAConventions"] or \\
            any(version_current in from_to[0] for from_to in
                upgrade.get(convention_current, {"from_to": []})["from_to"])
'''))
r("ref-upgrade-guard", (SO, '''        if is_deprecated:
            # check if upgrade is available for this convention
            if convention_current not in upgrade:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
''', '''        if not is_deprecated:
            print((f"Convention {convention_current} v{version_current} "
                   "is up to date"))
            return
        else:
            # check if upgrade is available for this convention
            if convention_current not in upgrade:
                print((f"Convention {convention_current} v{version_current} is"
                       " outdated but is missing upgrade rules"))
                return
'''), (SO, '''                       " outdated but is missing upgrade rules"))
                return
        else:
            print((f"Convention {convention_current} v{version_current} "
                   "is up to date"))
            return
''', '''                       " outdated but is missing upgrade rules"))
                return
'''))
r("ref-upgrade-split", (SO, '''        convention_target, version_target = target.split("_")
''', '''        parts = target.split("_")
        convention_target = parts[0]
        version_target = parts[1]
'''))
r("ref-apply-name", (SO, '''            source_sofar = source.replace(".", '_').replace(":", "_")
            target_sofar = move["target"].replace(".", '_').replace(":", "_")
''', '''            source_sofar = self._sofar_name(source)
            target_sofar = self._sofar_name(move["target"])
'''), (SO, '''            target_sofar = target.replace(".", '_').replace(":", "_")
            # nothing''', '''            target_sofar = self._sofar_name(target)
            # nothing'''), (SO, '''    def verify(self, issue_handling="raise", mode="write"):
''', '''    @staticmethod
    def _sofar_name(name):
        """Convert name from NetCDF to sofar format."""
        for character in ".:":
            name = name.replace(character, "_")
        return name

    def verify(self, issue_handling="raise", mode="write"):
'''))
r("ref-apply-move", (SO, '''            moveaxis = upgrade["move"][source]["moveaxis"]
''', '''            moveaxis = move["moveaxis"]
'''), (SO, '''            deprecated_dimensions = \\
                upgrade["move"][source]["deprecated_dimensions"]
''', '''            deprecated_dimensions = move["deprecated_dimensions"]
'''), (SO, '''        for key in keys:
            setattr(self, key, self._convention[key]["default"])

        # move data
''', '''        for key in keys:
            default = self._convention[key]["default"]
            setattr(self, key, default)

        # move data
'''))
r("ref-apply-hasattr", (SO, '''            # nothing to delete if optional data are not contained
            if not hasattr(self, target_sofar):
                continue
            delattr(self, target_sofar)
            print(f"- Deleting {target_sofar}.")
''', '''            # nothing to delete if optional data are not contained
            if hasattr(self, target_sofar):
                delattr(self, target_sofar)
                print(f"- Deleting {target_sofar}.")
'''))
r("ref-apply-ndim", (SO, '''                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
''', '''                ndim = max(moveaxis) + 1
                while data.ndim < ndim:
                    data = np.expand_dims(data, -1)
'''))
r("ref-verify-missing", (SO, '''        missing = ""
        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        for key in self._convention.keys():
            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:
''', '''        missing = ""
        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        for key, entry in self._convention.items():
            if key in keys:
                continue
            if self._mandatory(entry["flags"]):
'''))
r("ref-verify-missing-list", (SO, '''                # prepare to raise warning
                missing += "- " + key + "\\n"

        if missing:
''', '''                # prepare to raise warning
                missing = f"{missing}- {key}\\n"

        if len(missing) > 0:
'''))
r("ref-verify-type-helper", (SO, '''            if dtype == "attribute":
                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "double":
                # All variables can be of type float or int, and are converted
                # to float when writing.
                # sofar does not force the user to pass data as numpy arrays.
                # We thus check for allowed instances (int, float, numpy) and
                # specifically for the type of numpy arrays.
                if not isinstance(
                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'f']):
                    current_error''', '''            if dtype == "attribute":
                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "double":
                if not self._is_numeric(value):
                    current_error'''), (SO, '''    @staticmethod
    def _verify_value(''', '''    @staticmethod
    def _is_numeric(value):
        """Numbers and arrays of numbers."""
        if isinstance(value, (np.ndarray, np.number)):
            return value.dtype.kind in ['i', 'f']
        return isinstance(value, (int, float))

    @staticmethod
    def _verify_value('''))
r("ref-verify-names", (SO, '''            if (key[:key.rindex("_")] not in self._convention and
                    not key.startswith("GLOBAL_")):
                current_error += "- " + key + "\\n"
''', '''            if key.startswith("GLOBAL_"):
                continue
            variable = key.rsplit("_", 1)[0]
            if variable not in self._convention:
                current_error += "- " + key + "\\n"
'''))
r("ref-verify-underscore", (SO, '''        for key in keys:

            if self._convention[key]["type"] != "attribute":
                continue

            # the case above caught attributes with too many underscores
            if key.count("_") == 0:
                current_error += "- " + key + "\\n"
''', '''        for key in keys:
            # the case above caught attributes with too many underscores
            if self._convention[key]["type"] == "attribute" and \\
                    "_" not in key:
                current_error += "- " + key + "\\n"
'''))
r("ref-verify-reserved", (SO, '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
''', '''            if key.startswith(("PRIVATE", "API")):
                current_error += "- " + key + "\\n"
            elif key.startswith("GLOBAL") and (
                    not key.startswith("GLOBAL_") or
                    self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
'''))
r("ref-verify-append", (SO, '''        if current_error:
            error_msg += "Detected variables of wrong shape:\\n"
            error_msg += current_error
''', '''        if current_error:
            error_msg += f"Detected variables of wrong shape:\\n{current_error}"
'''), (SO, '''        if current_error:
            error_msg += "Detected violations of the SOFA convention:\\n"
            error_msg += current_error
''', '''        if current_error != "":
            error_msg += (
                "Detected violations of the SOFA convention:\\n"
                + current_error)
'''))
r("ref-verify-dims", (SO, '''                if dim not in "ICS" and dim.islower():
                    # numeric data
                    self._api[dim.upper()] = \\
                        _nd_newaxis(value, 4).shape[idx]
                if dim == "S":
''', '''                if dim.islower() and dim not in "ICS":
                    # numeric data
                    shape = _nd_newaxis(value, 4).shape
                    self._api[dim.upper()] = shape[idx]
                elif dim == "S":
'''))
r("ref-verify-string-size", (SO, '''                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))
''', '''                    size, _ = self._get_size_and_shape_of_string_var(
                        value, key)
                    if size > S:
                        S = size
'''))
r("ref-verify-shape-pad", (SO, '''                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                n_missing = len(shape_ref) - len(shape_compare)
                shape_compare = shape_compare + (1, ) * n_missing
'''))
r("ref-verify-shape-else", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):
''', '''            for dim in dimensions.split(", "):
'''), (SO, '''                if shape_compare == shape_ref:
                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break

            if not shape_matched:
''', '''                if shape_compare == shape_ref:
                    self._dimensions[key] = dim.upper()
                    break
            else:
'''))
r("ref-verify-keydep", (SO, '''            items = rules[key]["general"] if "general" in rules[key] else []

            for key_dep in items:

                # convert key to sofar format
                key_dep = key_dep.replace(".", "_").replace(":", "_")
''', '''            for dependency in rules[key].get("general", []):

                # convert key to sofar format
                key_dep = dependency.replace(".", "_").replace(":", "_")
'''))
r("ref-verify-specific", (SO, '''            if "specific" in rules[key] \\
                    and test in rules[key]["specific"]:
                items = rules[key]["specific"][test].items()
            else:
                items = {}.items()

            for key_dep, ref_dep in items:
''', '''            specific = rules[key]["specific"] \\
                if "specific" in rules[key] else {}

            for key_dep, ref_dep in (
                    specific[test] if test in specific else {}).items():
'''))
r("ref-verify-dimrule", (SO, '''                    for dim in rules[key]["specific"][test]["_dimensions"]:
                        # possible sizes
                        dim_ref = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value"]
                        # current size
                        dim_act = self._api[dim]
                        # verbose error string for possible sizes
                        dim_str = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value_str"]
''', '''                    for dim, rule in ref_dep.items():
                        # possible sizes
                        dim_ref = rule["value"]
                        # current size
                        dim_act = self._api[dim]
                        # verbose error string for possible sizes
                        dim_str = rule["value_str"]
'''))
r("ref-verify-units", (SO, '''            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''            for key, unit in list(self.__dict__.items()):
                if key.endswith("Units") and unit != unit.lower():
'''))
r("ref-verify-deprecation", (SO, '''        if self.GLOBAL_SOFAConventions in \\
                deprecations["GLOBAL:SOFAConventions"]:
            convention = self.GLOBAL_SOFAConventions
            msg =''', '''        convention = self.GLOBAL_SOFAConventions
        if convention in deprecations["GLOBAL:SOFAConventions"]:
            msg ='''))
r("ref-verify-handle", (SO, '''        if issue_handling != "ignore":
            _, issues = self._verify_handle_issues(
                    warning_msg, error_msg, issue_handling)

            if issue_handling == "return":
                return issues
''', '''        if issue_handling == "ignore":
            return None
        issues = self._verify_handle_issues(
            warning_msg, error_msg, issue_handling)[1]
        return issues if issue_handling == "return" else None
'''))
r("ref-value-simple", (SO, '''        if key in ["GLOBAL_DataType", "GLOBAL_SOFAConventions"]:
            if test in ref:
                return True
            else:
                return False

        # general case insensitive test
        test = test.lower()
        if test in ref:
            return True

        # if we are not checking a unit, the test value is invalid
        if key.endswith("Units"):
            return sf.Sofa._verify_unit(test, ref, unit_aliases)
        else:
            return False
''', '''        if key in ("GLOBAL_DataType", "GLOBAL_SOFAConventions"):
            return False

        # general case insensitive test
        lower = test.lower()
        if lower in ref:
            return True

        # if we are not checking a unit, the test value is invalid
        return key.endswith("Units") and \\
            sf.Sofa._verify_unit(lower, ref, unit_aliases)
'''))
r("ref-unit-all", (SO, '''        for unit_test, unit_ref in zip(units_test, units_ref):
            if unit_test not in unit_aliases \\
                    or unit_aliases[unit_test] != unit_ref:
                return False

        return True
''', '''        return all(
            unit_test in unit_aliases and unit_aliases[unit_test] == unit_ref
            for unit_test, unit_ref in zip(units_test, units_ref))
'''))
r("ref-handle-constants", (SO, '''        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None
''', '''        if warning_msg and error_msg:
            issues = f"{error_msg}\\n{warning_msg}"
        else:
            issues = warning_msg or error_msg
'''))
r("ref-rules-loop", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        def load(name):
            with open(os.path.join(base, name + ".json"), "r") as file:
                return json.load(file)

        return (load("rules"), load("unit_aliases"), load("deprecations"),
                load("upgrade"))
'''))
r("ref-rules-comp", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        loaded = []
        for name in ("rules", "unit_aliases", "deprecations", "upgrade"):
            with open(os.path.join(base, f"{name}.json"), "r") as file:
                loaded.append(json.load(file))

        return tuple(loaded)
'''))
r("ref-reset-custom", (SO, '''        if hasattr(self, "_custom"):
            # check of custom fields can be removed
            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]

            # check if custom fields can be added
            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''        if not hasattr(self, "_custom"):
            return

        # check of custom fields can be removed
        for key in [k for k in self._custom if k in self._convention]:
            self._custom.pop(key)

        # check if custom fields can be added
        self._convention.update(self._custom)
'''))
r("ref-reset-direct", (SO, '''        convention = self._load_convention(
            c_current, v_current)
        self._convention = convention
        self._update_read_only_attr()
''', '''        self._convention = self._load_convention(c_current, v_current)
        self._update_read_only_attr()
'''))
r("ref-readonly-loop", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        read_only = []
        for key, entry in self._convention.items():
            if self._read_only(entry["flags"]):
                read_only.append(key)
        self._read_only_attr = read_only
'''))
r("ref-load-name", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
''', '''        return {key.replace(':', '_').replace('.', '_'): value
                for key, value in convention.items()}
'''))
r("ref-load-names-loop", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
''', '''        renamed = {}
        for key in convention:
            name = key.replace('.', '_').replace(':', '_')
            renamed[name] = convention[key]

        return renamed
'''))
r("ref-load-try", (SO, '''            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
''', '''            try:
                path = path[versions.index(version)]
            except ValueError as error:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}")) from error
'''))
r("ref-default-items", (SO, '''        for key in self._convention.keys():

            # skip optional fields if requested
            if not self._mandatory(self._convention[key]["flags"]) \\
                    and mandatory:
                continue

            # get the default value
            default = self._convention[key]["default"]
            if isinstance(default, list):
                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)

            # create attribute with default value
            setattr(self, key, default)
''', '''        for key, entry in self._convention.items():

            # skip optional fields if requested
            if mandatory and not self._mandatory(entry["flags"]):
                continue

            setattr(self, key, self._default(entry))
'''), (SO, '''    @staticmethod
    def _get_size_and_shape_of_string_var(''', '''    @staticmethod
    def _default(entry):
        """Default value of an entry."""
        default = entry["default"]
        if not isinstance(default, list):
            return default
        return _atleast_nd(default, len(entry["dimensions"].split(", ")[0]))

    @staticmethod
    def _get_size_and_shape_of_string_var('''))
r("ref-default-api", (SO, '''        self.protected = False
        self.GLOBAL_DateCreated = now
        self.GLOBAL_DateModified = now
        self.GLOBAL_APIName = "sofar SOFA API for Python (pyfar.org)"
        self.GLOBAL_APIVersion = sf.version()
        self.GLOBAL_ApplicationName = "Python"
        self.GLOBAL_ApplicationVersion = (
            f"{platform.python_version()} "
            f"[{platform.python_implementation()} - "
            f"{platform.python_compiler()}]")
        self.protected = True
''', '''        values = {
            "GLOBAL_DateCreated": now,
            "GLOBAL_DateModified": now,
            "GLOBAL_APIName": "sofar SOFA API for Python (pyfar.org)",
            "GLOBAL_APIVersion": sf.version(),
            "GLOBAL_ApplicationName": "Python",
            "GLOBAL_ApplicationVersion": (
                f"{platform.python_version()} "
                f"[{platform.python_implementation()} - "
                f"{platform.python_compiler()}]")}
        self.protected = False
        for key, value in values.items():
            setattr(self, key, value)
        self.protected = True
'''))
r("ref-mandatory-bool", (SO, '''        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory
''', '''        return flags is not None and "m" in flags
'''), (SO, '''        if flags is None:
            is_read_only = False
        elif "r" not in flags:
            is_read_only = False
        else:
            is_read_only = True

        return is_read_only
''', '''        return bool(flags) and "r" in flags
'''))
r("ref-string-size", (SO, '''        if isinstance(value, str):
            S = size(value)
            shape = (1, 1)
        elif isinstance(value, list):
            S = max(size(v) for v in value)
            shape = np.array(value).shape
        elif isinstance(value, np.ndarray):
            S = np.max(np.vectorize(size)(value))
            shape = value.shape
        else:
            raise TypeError((f"{key} must be a string, numpy string array, "
                             "or list of strings"))

        return S, shape
''', '''        if isinstance(value, str):
            return size(value), (1, 1)
        if isinstance(value, list):
            return max(size(v) for v in value), np.array(value).shape
        if isinstance(value, np.ndarray):
            return np.max(np.vectorize(size)(value)), value.shape
        raise TypeError((f"{key} must be a string, numpy string array, "
                         "or list of strings"))
'''))
r("ref-copy", (SO, "from copy import deepcopy\n", "import copy\n"), (SO, "        return deepcopy(self)\n", "        return copy.deepcopy(self)\n"))

# ------------------------------------- further refactorings of io, utils, ...
r("ref-io-path-helper", (W, '''def _read_netcdf(filename, verify, verbose, mode):
''', '''def _sofa_path(filename):
    """Return the path with the suffix '.sofa'."""
    return pathlib.Path(filename).with_suffix('.sofa')


def _read_netcdf(filename, verify, verbose, mode):
'''), (W, '''    # check the filename
    filename = pathlib.Path(filename).with_suffix('.sofa')
    if not os.path.isfile(filename):
''', '''    # check the filename
    filename = _sofa_path(filename)
    if not filename.is_file():
'''), (W, '''    # check the filename
    filename = pathlib.Path(filename).with_suffix('.sofa')

    if verify:
''', '''    # check the filename
    filename = _sofa_path(filename)

    if verify:
'''))
r("ref-io-name-var", (W, '''            value = _format_value_from_netcdf(file[var][:], var)
            all_attr.append(var.replace(".", "_"))

            if hasattr(sofa, var.replace(".", "_")):
                setattr(sofa, var.replace(".", "_"), value)
''', '''            value = _format_value_from_netcdf(file[var][:], var)
            name = var.replace(".", "_")
            all_attr.append(name)

            if hasattr(sofa, name):
                setattr(sofa, name, value)
'''), (W, '''                sofa._add_custom_api_entry(var.replace(".", "_"), value, None,
                                           dimensions, dtype)
                custom.append(var.replace(".", "_"))
                sofa.protected = False
''', '''                sofa._add_custom_api_entry(name, value, None,
                                           dimensions, dtype)
                custom.append(name)
                sofa.protected = False
'''), (W, '''                value = getattr(file[var], attr)
                all_attr.append(var.replace(".", "_") + "_" + attr)

                if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
                    sofa._add_custom_api_entry(
                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
                else:
                    setattr(sofa, var.replace(".", "_") + "_" + attr, value)
''', '''                value = getattr(file[var], attr)
                attr_name = f"{name}_{attr}"
                all_attr.append(attr_name)

                if hasattr(sofa, attr_name):
                    setattr(sofa, attr_name, value)
                else:
                    sofa._add_custom_api_entry(
                        attr_name, value, None, None, "attribute")
                    custom.append(attr_name)
                    sofa.protected = False
'''))
r("ref-io-attr-helper", (W, '''def _read_netcdf(filename, verify, verbose, mode):
''', '''def _store_attribute(sofa, name, value, custom):
    """Store attribute from file in SOFA object."""
    if hasattr(sofa, name):
        setattr(sofa, name, value)
        return

    sofa._add_custom_api_entry(name, value, None, None, "attribute")
    custom.append(name)
    sofa.protected = False


def _read_netcdf(filename, verify, verbose, mode):
'''), (W, '''            if not hasattr(sofa, f"GLOBAL_{attr}"):
                sofa._add_custom_api_entry(
                    f"GLOBAL_{attr}", value, None, None, "attribute")
                custom.append(f"GLOBAL_{attr}")
                sofa.protected = False
            else:
                setattr(sofa, f"GLOBAL_{attr}", value)
''', '''            _store_attribute(sofa, f"GLOBAL_{attr}", value, custom)
'''), (W, '''                if not hasattr(sofa, var.replace(".", "_") + "_" + attr):
                    sofa._add_custom_api_entry(
                        var.replace(".", "_") + "_" + attr, value, None,
                        None, "attribute")
                    custom.append(var.replace(".", "_") + "_" + attr)
                    sofa.protected = False
                else:
                    setattr(sofa, var.replace(".", "_") + "_" + attr, value)
''', '''                _store_attribute(
                    sofa, var.replace(".", "_") + "_" + attr, value, custom)
'''))
r("ref-io-items", (W, '''        for var in file.variables.keys():

            value = _format_value_from_netcdf(file[var][:], var)
''', '''        for var, variable in file.variables.items():

            value = _format_value_from_netcdf(variable[:], var)
'''), (W, '''                dimensions = "".join(list(file[var].dimensions))
''', '''                dimensions = "".join(variable.dimensions)
'''), (W, '''                dtype = "string" if file[var].datatype == "S1" else "double"
''', '''                if variable.datatype == "S1":
                    dtype = "string"
                else:
                    dtype = "double"
'''), (W, '''            for attr in [a for a in file[var].ncattrs() if a not in skip]:

                value = getattr(file[var], attr)
''', '''            for attr in variable.ncattrs():
                if attr in skip:
                    continue

                value = getattr(variable, attr)
'''))
r("ref-io-remove", (W, '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    missing = [attr for attr in vars(sofa)
               if not attr.startswith("_") and attr not in set(all_attr)]
    for attr in missing:
        delattr(sofa, attr)
'''))
r("ref-io-remove-list", (W, '''    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    for attr in filter(lambda a: a not in all_attr, attrs):
        delattr(sofa, attr)
'''))
r("ref-io-auto", (W, '''    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False
''', '''    if verify == 'auto':
        verify = parse(version) >= parse('1.0')
'''), (W, '''    # update api
    if verify:
        try:
''', '''    if not verify:
        return sofa

    # update api
    if verify:
        try:
'''))
r("ref-io-mode-first", (W, '''        if mode == "sofa":
            # get convention name and version
            convention = file.SOFAConventions
            version = file.SOFAConventionsVersion

            # check if convention and version exist
            _verify_convention_and_version(version, convention)

            # get SOFA object with default values
            sofa = sf.Sofa(convention, version=version, verify=verify)
        else:
            sofa = sf.Sofa(None)
''', '''        if mode != "sofa":
            sofa = sf.Sofa(None)
        else:
            # get convention name and version
            version = file.getncattr("SOFAConventionsVersion")
            convention = file.getncattr("SOFAConventions")

            # check if convention and version exist
            _verify_convention_and_version(
                convention=convention, version=version)

            # get SOFA object with default values
            sofa = sf.Sofa(convention, verify=verify, version=version)
'''))
r("ref-io-getncattr", (W, '''            value = getattr(file, attr)
            all_attr.append(f"GLOBAL_{attr}")
''', '''            value = file.getncattr(attr)
            all_attr += ["GLOBAL_" + attr]
'''))
r("ref-io-set", (W, '''    all_attr = []
    custom = []
''', '''    all_attr = set()
    custom = []
'''), (W, '''            all_attr.append(f"GLOBAL_{attr}")
''', '''            all_attr.add(f"GLOBAL_{attr}")
'''), (W, '''            all_attr.append(var.replace(".", "_"))
''', '''            all_attr.add(var.replace(".", "_"))
'''), (W, '''                all_attr.append(var.replace(".", "_") + "_" + attr)
''', '''                all_attr.add(var.replace(".", "_") + "_" + attr)
'''))
r("ref-io-notice", (W, '''        print(("SOFA file contained custom entries\\n"
               "----------------------------------\\n"
               f"{', '.join(custom)}"))
''', '''        header = "SOFA file contained custom entries"
        print("\\n".join([header, "-" * len(header), ", ".join(custom)]))
'''))
r("ref-io-write-outdated", (W, '''def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
''', '''def _warn_if_outdated(sofa):
    """Warn if the convention of the SOFA object is outdated."""
    if sofa.GLOBAL_SOFAConventions == "invalid-value":
        return

    latest = sf.Sofa(sofa.GLOBAL_SOFAConventions).GLOBAL_SOFAConventionsVersion
    current = sofa.GLOBAL_SOFAConventionsVersion

    if parse(current) < parse(latest):
        warnings.warn((
            "Writing SOFA object with outdated Convention "
            f"version {current}. It is recommend to upgrade "
            " data with Sofa.upgrade_convention() before "
            "writing to disk if possible."), stacklevel=3)


def _write_sofa(filename: str, sofa: sf.Sofa, compression=4, verify=True):
'''), (W, '''        if sofa.GLOBAL_SOFAConventions != "invalid-value":
            latest = sf.Sofa(sofa.GLOBAL_SOFAConventions)
            latest = latest.GLOBAL_SOFAConventionsVersion
            current = sofa.GLOBAL_SOFAConventionsVersion

            if parse(current) < parse(latest):
                warnings.warn((
                    "Writing SOFA object with outdated Convention "
                    f"version {current}. It is recommend to upgrade "
                    " data with Sofa.upgrade_convention() before "
                    "writing to disk if possible."), stacklevel=2)

    # setting the netCDF compression parameter
    use_zlib = compression != 0

    # update the dimensions
    if verify:
        sofa.verify(mode="write")
''', '''        _warn_if_outdated(sofa)

        # update the dimensions
        sofa.verify(mode="write")

    # setting the netCDF compression parameter
    use_zlib = compression != 0
'''))
r("ref-io-write-keys", (W, '''    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]

    # open new NETCDF4 file for writing
''', '''    all_keys = [key for key in vars(sofa) if key[:1] != "_"]
    global_keys = [key for key in all_keys if key.startswith("GLOBAL_")]
    data_keys = [key for key in all_keys
                 if sofa._convention[key]["type"] != "attribute"]

    # open new NETCDF4 file for writing
'''), (W, '''        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
        for key in keys:
            setattr(file, key[7:], str(getattr(sofa, key)))
''', '''        for key in global_keys:
            setattr(file, key[len("GLOBAL_"):], str(getattr(sofa, key)))
'''), (W, '''        for key in all_keys:

            # skip attributes
''', '''        for key in data_keys:

            # skip attributes
'''), (W, '''            if sofa._convention[key]["type"] == "attribute":
                continue

            # get the data''', '''
            # get the data'''))
r("ref-io-write-dims", (W, '''        for dim in sofa._api:
            file.createDimension(dim, sofa._api[dim])
''', '''        for dim, size in sofa._api.items():
            file.createDimension(dim, size)
'''))
r("ref-io-write-setncattr", (W, '''            setattr(file, key[7:], str(getattr(sofa, key)))
''', '''            file.setncattr(key[7:], str(getattr(sofa, key)))
'''), (W, '''                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
''', '''                attr = sub_key.removeprefix(f"{key}_")
                tmp_var.setncattr(attr, str(getattr(sofa, sub_key)))
'''))
r("ref-io-write-variable", (W, '''            # create variable and write data
            shape = list(sofa._dimensions[key])
            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
            if dtype == "f8":
                tmp_var[:] = value
            else:
                # split strings into their (utf-8 encoded) characters
                tmp_var[:] = value.view("S1").reshape(value.shape + (-1, ))

            # write variable attributes
            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"]
            for sub_key in sub_keys:
                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
''', '''            # create variable and write data
            var = file.createVariable(
                key.replace("Data_", "Data."), dtype,
                [dim for dim in sofa._dimensions[key]],
                zlib=use_zlib, complevel=compression)
            if dtype != "f8":
                # split strings into their (utf-8 encoded) characters
                value = value.view("S1").reshape((*value.shape, -1))
            var[:] = value

            # write variable attributes
            prefix = key + "_"
            for sub_key in all_keys:
                if sub_key.startswith(prefix) and \\
                        sofa._convention[sub_key]["type"] == "attribute":
                    setattr(var, sub_key[len(prefix):],
                            str(getattr(sofa, sub_key)))
'''))
r("ref-io-write-entry", (W, '''            if sofa._convention[key]["type"] == "attribute":
                continue
''', '''            entry_type = sofa._convention[key]["type"]
            if entry_type == "attribute":
                continue
'''), (W, '''                getattr(sofa, key), key, sofa._convention[key]["type"],
                sofa._dimensions[key], sofa._api["S"])
''', '''                value=getattr(sofa, key), key=key, dtype=entry_type,
                dimensions=sofa._dimensions[key], S=sofa._api["S"])
'''))
r("ref-io-format-returns", (W, '''    if dtype == "attribute":
        value = str(value)
        netcdf_dtype = "attribute"
    elif dtype == "double":
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
    elif dtype == "string":
        value = np.asarray(value)
        if value.dtype.kind != "S":
            value = np.char.encode(value, "utf-8")
        value = np.array(value, dtype=f"S{str(S)}")
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = 'S1'
    else:
        raise ValueError(f"Unknown type {dtype} for {key}")

    return value, netcdf_dtype
''', '''    if dtype == "attribute":
        return str(value), "attribute"
    if dtype == "double":
        return _atleast_nd(value, len(dimensions)), "f8"
    if dtype != "string":
        raise ValueError(f"Unknown type {dtype} for {key}")

    value = np.asarray(value)
    if value.dtype.kind != "S":
        value = np.char.encode(value, "utf-8")
    return _atleast_nd(value.astype(f"S{S}"), len(dimensions)), "S1"
'''))
r("ref-io-format-try", (W, '''    with contextlib.suppress(AttributeError):
        value = value.copy()
''', '''    try:
        value = value.copy()
    except AttributeError:
        pass
'''))
r("ref-io-from-dtype", (W, '''    if "float" in str(value.dtype) or "int" in str(value.dtype):
        if np.ma.is_masked(value):
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
        else:
            # Convert to numpy array or scalar
            value = np.asarray(value)
    elif str(value.dtype)[1] in ["S", "U"]:
''', '''    dtype = str(value.dtype)
    if "float" in dtype or "int" in dtype:
        if not np.ma.is_masked(value):
            # Convert to numpy array or scalar
            value = np.asarray(value)
        else:
            warnings.warn(f"Entry {key} contains missing data", stacklevel=3)
    elif dtype[1] in ("S", "U"):
'''), (W, '''        if str(value.dtype)[1] == "S":
            value = chartostring''', '''        if dtype[1] == "S":
            value = chartostring'''))
r("ref-io-from-scalar", (W, '''    if value.size == 1 and key not in data_keys:
        value = value[0]

    return value
''', '''    if key in data_keys or value.size != 1:
        return value

    return value[0]
'''))
r("ref-ut-versions-any", (UT, '''    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    version_exists = any(
        name == convention and str(float(v)) == version
        for name, v in name_version)

    if not version_exists:
'''))
r("ref-ut-versions-list", (UT, '''    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    versions = [str(float(v)) for n, v in name_version if n == convention]

    if version not in versions:
'''))
r("ref-ut-conv-comp", (UT, '''    conventions_str = "Available SOFA conventions:\\n"

    conventions = []
    versions = []
    for path in paths:
        fileparts = os.path.basename(path).split(sep="_")
        conventions += [fileparts[0]]
        versions += [fileparts[1][:-5]]
        conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n"
''', '''    fileparts = [os.path.basename(path).split("_") for path in paths]
    conventions = [parts[0] for parts in fileparts]
    versions = [parts[1][:-5] for parts in fileparts]

    conventions_str = "Available SOFA conventions:\\n"
    for name, version in zip(conventions, versions):
        conventions_str += f"{name} (Version {version})\\n"
'''))
r("ref-ut-conv-append", (UT, '''        fileparts = os.path.basename(path).split(sep="_")
        conventions += [fileparts[0]]
        versions += [fileparts[1][:-5]]
        conventions_str += f"{conventions[-1]} (Version {versions[-1]})\\n"
''', '''        name, version = os.path.splitext(
            os.path.basename(path))[0].split("_")[:2]
        conventions.append(name)
        versions.append(version)
        conventions_str += f"{name} (Version {version})\\n"
'''))
r("ref-ut-conv-early", (UT, '''    paths = standardized + deprecated

''', '''    paths = standardized + deprecated

    if return_type is not None and return_type.startswith("path"):
        return paths

'''), (UT, '''    if return_type is None:
        return
    elif return_type.startswith("path"):
        return paths
    elif return_type == "name":
        return conventions
    elif return_type == "name_version":
        return list(zip(conventions, versions))
    elif return_type == "string":
        return conventions_str
    else:
        raise ValueError(f"return_type {return_type} is invalid")
''', '''    if return_type is None:
        return None
    if return_type == "name":
        return conventions
    if return_type == "name_version":
        return list(zip(conventions, versions))
    if return_type == "string":
        return conventions_str
    raise ValueError(f"return_type {return_type} is invalid")
'''))
r("ref-ut-eq-filter", (UT, '''    if exclude is not None:
        if exclude.upper() == "GLOBAL":
            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]
        elif exclude.upper() == "ATTR":
            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]
        elif exclude.upper() == "DATE":
            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
        else:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
''', '''    if exclude is not None:
        keys_a = _exclude_keys(sofa_a, keys_a, exclude)
        keys_b = _exclude_keys(sofa_b, keys_b, exclude)
'''), (UT, '''def _equals_raise_warning(message, verbose):
''', '''def _exclude_keys(sofa, keys, exclude):
    """Return keys without the ones to be excluded."""
    what = exclude.upper()
    if what == "GLOBAL":
        return [k for k in keys if not k.startswith("GLOBAL_")]
    if what == "ATTR":
        return [k for k in keys if sofa._convention[k]["type"] != "attribute"]
    if what == "DATE":
        return [k for k in keys if "Date" not in k]
    raise ValueError(
        f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")


def _equals_raise_warning(message, verbose):
'''))
r("ref-ut-eq-compare", (UT, '''        # get data and types
        a = getattr(sofa_a, key)
        b = getattr(sofa_b, key)
        type_a = sofa_a._convention[key]["type"]
        type_b = sofa_b._convention[key]["type"]

        # compare attributes
        if type_a == "attribute" and type_b == "attribute":

            # compare
            if a != b:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''        # get data and types
        a, b = getattr(sofa_a, key), getattr(sofa_b, key)
        type_a, type_b = (
            sofa._convention[key]["type"] for sofa in (sofa_a, sofa_b))

        if type_a != type_b:
            is_identical = _equals_raise_warning(
                (f"not identical: {key} has different data types "
                 f"({type_a}, {type_b})"), verbose)

        # compare attributes
        elif type_a == "attribute":

            # compare
            if a != b:
                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
'''))
r("ref-ut-eq-keys", (UT, '''    # check for equal length
    if len(keys_a) != len(keys_b):
''', '''    n_a = len(keys_a)
    n_b = len(keys_b)
    # check for equal length
    if n_a != n_b:
'''), (UT, '''            f"not identical: sofa_a has {len(keys_a)} attributes for "
            f"comparison and sofa_b has {len(keys_b)}."), verbose)
''', '''            f"not identical: sofa_a has {n_a} attributes for "
            f"comparison and sofa_b has {n_b}."), verbose)
'''), (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if sorted(keys_a) != sorted(keys_b):
'''))
r("ref-ut-nd-while", (UT, '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)

    while array.ndim < ndim:
        array = array[..., np.newaxis]
    return array
'''))
r("ref-ut-nd-reshape", (UT, '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)
    missing = ndim - array.ndim
    return array.reshape(array.shape + (1, ) * missing)
'''))
r("ref-ut-atleast-elif", (UT, '''    try:
        array = array.copy()
    except AttributeError:
        array = array

    if ndim == 1:
        array = np.atleast_1d(array)
    if ndim == 2:
        array = np.atleast_2d(array)
    if ndim >= 3:
        array = np.atleast_3d(array)
''', '''    if hasattr(array, "copy"):
        array = array.copy()

    if ndim == 1:
        array = np.atleast_1d(array)
    elif ndim == 2:
        array = np.atleast_2d(array)
    elif ndim >= 3:
        array = np.atleast_3d(array)
'''))
r("ref-ut-version", (UT, '''    sofa_conventions = os.path.join(
        os.path.dirname(__file__), "sofa_conventions", 'VERSION')
    with open(sofa_conventions) as file:
        sofa_conventions = file.readline().strip()

    return (f"sofar v{sf.__version__} implementing "
            f"SOFA standard {sofa_conventions}")
''', '''    path = os.path.join(
        os.path.dirname(__file__), "sofa_conventions", 'VERSION')
    with open(path) as file:
        standard = file.readline().strip()

    return f"sofar v{sf.__version__} implementing SOFA standard {standard}"
'''))
r("ref-st-getattr-early", (SS, '''        # get netCDF4-attributes and -variable-keys from SOFA-file
        dset_variables = np.array(list(self._file.variables.keys()))
        dset_attributes = np.asarray(self._file.ncattrs())

''', '''        # get netCDF4-attributes and -variable-keys from SOFA-file
        dset_variables = list(file.variables)
        dset_attributes = file.ncattrs()

'''), (SS, '''        if name_netcdf in dset_variables and not is_global:
            # get variable from SOFA-file
            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)

        # get value if passed attribute points to a netCDF4-attribute
        elif name_netcdf in dset_attributes and is_global:
            # get attribute value from SOFA-file
            self._data = self._file.getncattr(name_netcdf)

        else:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        return self._data
''', '''        if is_global and name_netcdf in dset_attributes:
            # get attribute value from SOFA-file
            return file.getncattr(name_netcdf)

        if is_global or name_netcdf not in dset_variables:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        # get variable from SOFA-file
        variable = file.variables[name_netcdf]
        return variable if var_attr is None else variable.getncattr(var_attr)
'''))
r("ref-st-partition", (SS, '''        if "_" in name_netcdf and not is_global:
            name_netcdf, var_attr = name_netcdf.split('_', 1)
''', '''        if not is_global and "_" in name_netcdf:
            name_netcdf, _, var_attr = name_netcdf.partition('_')
'''))
r("ref-st-dims-verbose", (SS, '''        if self._file.getncattr('DataType').startswith("FIR"):
            N_verbose = "samples"
        elif self._file.getncattr('DataType').startswith("TF"):
            N_verbose = "frequencies"
        elif self._file.getncattr('DataType').startswith("SOS"):
            N_verbose = "SOS coefficients"
        else:
            N_verbose = "data points"
''', '''        data_type = self._file.getncattr('DataType')
        N_verbose = "data points"
        for start, verbose in (("FIR", "samples"), ("TF", "frequencies"),
                               ("SOS", "SOS coefficients")):
            if data_type.startswith(start):
                N_verbose = verbose
                break
'''), (SS, '''            value = value.size
            dim_info = dimensions[key] if key in dimensions \\
                else "custom dimension"

            info_str += f"{key} = {value} {dim_info}" + '\\n'
''', '''            dim_info = dimensions.get(key, "custom dimension")
            info_str += f"{key} = {value.size} {dim_info}\\n"
'''))
r("ref-st-get-dim", (SS, '''        if dimension not in dims.keys():
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return dims[dimension].size
''', '''        if dimension in dims:
            return dims[dimension].size

        raise ValueError((
            f"{dimension} is not a valid dimension. "
            "See Sofa.list_dimensions for a list of valid dimensions."))
'''))
r("ref-st-inspect-items", (SS, '''        for key in self._file.variables.keys():
            # get values, shape and dimensions
            data = self._file[key]
''', '''        for key, data in self._file.variables.items():
            # get values, shape and dimensions
'''), (SS, '''            while len(shape) < len(dimensions):
                shape += (1, )

''', '''            shape += (1, ) * (len(dimensions) - len(shape))

'''), (SS, '''                shape_verbose = "("
                for s, d in zip(shape, dimensions):
                    shape_verbose += f"{d}={s}, "

                # add shape information
                info_str += shape_verbose[:-2] + ")\\n"
''', '''                shape_verbose = ", ".join(
                    f"{d}={s}" for d, s in zip(dimensions, shape))

                # add shape information
                info_str += f"({shape_verbose})\\n"
'''))
r("ref-st-inspect-attrs", (SS, '''            for att_ in list(self._file[key].ncattrs()):
                info_str += (key.replace('.', '_') + f'_{att_} : '
                             + getattr(data, att_) + '\\n')
''', '''            for att_ in data.ncattrs():
                name = f"{key.replace('.', '_')}_{att_}"
                info_str += f"{name} : {data.getncattr(att_)}\\n"
'''))
r("ref-st-inspect-lines", (SS, '''        for attr in self._file.ncattrs():

            value = self._file.getncattr(attr)
            sofar_attr = f"GLOBAL_{attr}"
            info_str += sofar_attr + ' : ' + str(value) + '\\n'
''', '''        info_str += "".join(
            f"GLOBAL_{attr} : {self._file.getncattr(attr)}\\n"
            for attr in self._file.ncattrs())
'''), (SS, '''            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")
''', '''            text = info_str + "\\n"
            with open(file, mode='w', encoding='utf-8') as f_id:
                f_id.write(text)
'''))

# ---------------------------------- update_conventions and larger extractions
r("ref-uc-listing", (UC, '''def update_conventions(conventions_path=None, assume_yes=False):
''', '''def _list_files(url, ext):
    """Return names of files with extension `ext` linked at `url`."""
    page = requests.get(url)
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    links = [node.get('href') for node in soup.find_all('a')]
    return [os.path.split(link)[1] for link in links if link.endswith(ext)]


def update_conventions(conventions_path=None, assume_yes=False):
'''), (UC, '''    page = requests.get(urls[0])
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    standardized = [os.path.split(node.get('href'))[1]
                    for node in soup.find_all('a')
                    if node.get('href').endswith(ext)]
    page = requests.get(urls[1])
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    deprecated = [os.path.split(node.get('href'))[1]
                  for node in soup.find_all('a')
                  if node.get('href').endswith(ext)]
''', '''    standardized = _list_files(urls[0], ext)
    deprecated = _list_files(urls[1], ext)
'''))
r("ref-uc-write", (UC, '''def update_conventions(conventions_path=None, assume_yes=False):
''', '''def _write_bytes(data, *path):
    with open(os.path.join(*path), "wb") as file:
        file.write(data)


def update_conventions(conventions_path=None, assume_yes=False):
'''), (UC, '''                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
''', '''                _write_bytes(data, temp, convention)
                print(f"- add convention: {convention[:-4]}")
'''), (UC, '''                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
''', '''                    _write_bytes(data, temp, convention)
                    print(f"- update convention: {convention[:-4]}")
'''), (UC, '''                with open(os.path.join(temp, 'deprecated', convention), "wb") \\
                        as file:
                    file.write(data)
                print(f"- deprecate convention: {convention[:-4]}")
''', '''                _write_bytes(data, temp, 'deprecated', convention)
                print(f"- deprecate convention: {convention[:-4]}")
'''))
r("ref-uc-normalise", (UC, '''def update_conventions(conventions_path=None, assume_yes=False):
''', '''def _normalise(data):
    """Remove windows style line breaks and trailing tabs."""
    return data.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")


def update_conventions(conventions_path=None, assume_yes=False):
'''), (UC, '''            data = data.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")

            # check if convention needs''', '''            data = _normalise(data.content)

            # check if convention needs'''), (UC, '''                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
''', '''                with open(standardized_csv, "rb") as file:
                    data_current = _normalise(file.read())
'''), (UC, '''        data = [d.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                for d in data]
''', '''        data = [_normalise(d.content) for d in data]
'''))
r("ref-uc-paths", (UC, '''    if not os.path.isdir(conventions_path):
        os.mkdir(conventions_path)
    if not os.path.isdir(os.path.join(conventions_path, "deprecated")):
        os.mkdir(os.path.join(conventions_path, "deprecated"))
''', '''    deprecated_path = os.path.join(conventions_path, "deprecated")
    for path in (conventions_path, deprecated_path):
        if not os.path.isdir(path):
            os.mkdir(path)
'''), (UC, '''            deprecated_csv = os.path.join(
                    conventions_path, "deprecated", convention)
''', '''            deprecated_csv = os.path.join(deprecated_path, convention)
'''))
r("ref-uc-nested", (UC, '''            if is_standardized and not os.path.isfile(standardized_csv):
                # add new standardized convention
                updated = True
                with open(os.path.join(temp, convention), "wb") as file:
                    file.write(data)
                print(f"- add convention: {convention[:-4]}")
                update.append(convention)
            if is_standardized and os.path.isfile(standardized_csv):
                # check for update of a standardized convention
                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                if data_current != data:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- update convention: {convention[:-4]}")
                    update.append(convention)
            elif not is_standardized and os.path.isfile(standardized_csv):
''', '''            if is_standardized:
                action = None
                if os.path.isfile(standardized_csv):
                    # check for update of a standardized convention
                    with open(standardized_csv, "rb") as file:
                        data_current = b"".join(file.readlines())
                        data_current = data_current.replace(
                            b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
                    if data_current != data:
                        action = "update"
                else:
                    action = "add"
                if action is not None:
                    updated = True
                    with open(os.path.join(temp, convention), "wb") as file:
                        file.write(data)
                    print(f"- {action} convention: {convention[:-4]}")
                    update.append(convention)
            elif not is_standardized and os.path.isfile(standardized_csv):
'''))
r("ref-uc-updated", (UC, '''        if updated and not assume_yes:
''', '''        updated = bool(update or deprecate)

        if updated and not assume_yes:
'''))
r("ref-uc-return", (UC, '''        if updated and not assume_yes:
''', '''        if not updated:
            print("... conventions already up to date.")
            return

        if not assume_yes:
'''), (UC, '''        if updated:
            for convention in update:
                shutil.copy(os.path.join(temp, convention),
                            os.path.join(conventions_path, convention))
            for convention in deprecate:
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
            # compile json files from csv file
            _compile_conventions(conventions_path)
            # remove deprecated conventions after they were compiled
            for convention in deprecate:
                os.remove(os.path.join(conventions_path, convention))
                os.remove(
                    os.path.join(conventions_path, f"{convention[:-3]}json"))
            print("... done.")
        else:
            print("... conventions already up to date.")
''', '''        for convention in update + [
                os.path.join('deprecated', c) for c in deprecate]:
            shutil.copy(os.path.join(temp, convention),
                        os.path.join(conventions_path, convention))
        # compile json files from csv file
        _compile_conventions(conventions_path)
        # remove deprecated conventions after they were compiled
        for convention in deprecate:
            base = os.path.join(conventions_path, convention[:-3])
            os.remove(f"{base}csv")
            os.remove(f"{base}json")
        print("... done.")
'''))
r("ref-uc-consent", (UC, '''            response = input()
            if response != "y":
                print''', '''            if input() != "y":
                print'''))
r("ref-uc-url", (UC, '''            url = (
                f"{urls[0]}/{convention}"
                if is_standardized
                else f"{urls[1]}/{convention}"
            )

            # download SOFA convention definitions to package directory
            data = requests.get(url)
''', '''            base_url = urls[0] if is_standardized else urls[1]

            # download SOFA convention definitions to package directory
            data = requests.get(f"{base_url}/{convention}")
'''))
r("ref-uc-compile", (UC, '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))

    for csv_file in csv_files:

        # convert SOFA conventions from csv to json
        convention_dict = _convention_csv2dict(csv_file)
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''    csv_files = []
    for folder in (conventions_path,
                   os.path.join(conventions_path, "deprecated")):
        csv_files += glob.glob(os.path.join(folder, "*.csv"))

    for csv_file in csv_files:

        # convert SOFA conventions from csv to json
        convention_dict = _convention_csv2dict(csv_file)
        json_file = os.path.splitext(csv_file)[0] + ".json"
        with open(json_file, 'w') as file:
            file.write(json.dumps(convention_dict, indent=4))
'''))
r("ref-uc-compile-all", (UC, '''    for csv_file in csv_files:

        # convert SOFA conventions from csv to json
        convention_dict = _convention_csv2dict(csv_file)
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
''', '''    # convert SOFA conventions from csv to json
    compiled = {csv_file: _convention_csv2dict(csv_file)
                for csv_file in csv_files}

    for csv_file, convention_dict in compiled.items():
        with open(f"{csv_file[:-3]}json", 'w') as file:
            json.dump(convention_dict, file, indent=4)
'''))
r("ref-uc-cell", (UC, '''def _convention_csv2dict(file: str):
''', '''def _parse_numbers(cell):
    """Parse numbers separated by blanks or commas."""
    numbers = cell.strip().replace(' ', ',').split(',')
    return [float(n) if '.' in n else int(n) for n in numbers]


def _convention_csv2dict(file: str):
'''), (UC, '''                if ';' not in cell:
                    # get rid of white spaces
                    cell = cell.strip()
                    cell = cell.replace(' ', ',')
                    cell = cell.replace(' ', '')
                    # create flat list of integers and floats
                    numbers = cell.split(',')
                    cell = [float(n) if '.' in n else int(n) for n in numbers]
                else:
                    # create a nested list of integers and floats
                    # separate multidimensional arrays
                    cell = cell.split(';')
                    cell_nd = [None] * len(cell)
                    for idx, cc in enumerate(cell):
                        # get rid of white spaces
                        cc = cc.strip()
                        cc = cc.replace(' ', ',')
                        cc = cc.replace(' ', '')
                        numbers = cc.split(',')
                        cell_nd[idx] = [float(n) if '.' in n else int(n)
                                        for n in numbers]

                    cell = cell_nd
''', '''                if ';' in cell:
                    cell = [_parse_numbers(cc) for cc in cell.split(';')]
                else:
                    cell = _parse_numbers(cell)
'''))
r("ref-uc-parse-cell", (UC, '''def _convention_csv2dict(file: str):
''', '''def _parse_cell(cell):
    """Parse cell of convention file."""
    # detect empty cells
    if cell.replace(' ', '') == '':
        return None
    cell = cell.strip()
    # text cells that do not contain arrays
    if cell[0] != '[':
        # check for numbers
        try:
            return float(cell) if '.' in cell else int(cell)
        except ValueError:
            return cell
    # array cells, remove brackets
    cell = cell[1:-1]
    rows = [[float(n) if '.' in n else int(n)
             for n in row.strip().replace(' ', ',').split(',')]
            for row in cell.split(';')]
    return rows if ';' in cell else rows[0]


def _convention_csv2dict(file: str):
'''), (UC, '''                # detect empty cells and leading trailing white spaces
                cell = None if cell.replace(' ', '') == '' else cell.strip()
                # nothing to do for empty cells
                if cell is None:
                    line[idc] = cell
                    continue
                # parse text cells that do not contain arrays
                if cell[0] != '[':
                    # check for numbers
                    with contextlib.suppress(ValueError):
                        cell = float(cell) if '.' in cell else int(cell)
                    line[idc] = cell
                    continue

                # parse array cell
                # remove brackets
                cell = cell[1:-1]

                if ';' not in cell:
                    # get rid of white spaces
                    cell = cell.strip()
                    cell = cell.replace(' ', ',')
                    cell = cell.replace(' ', '')
                    # create flat list of integers and floats
                    numbers = cell.split(',')
                    cell = [float(n) if '.' in n else int(n) for n in numbers]
                else:
                    # create a nested list of integers and floats
                    # separate multidimensional arrays
                    cell = cell.split(';')
                    cell_nd = [None] * len(cell)
                    for idx, cc in enumerate(cell):
                        # get rid of white spaces
                        cc = cc.strip()
                        cc = cc.replace(' ', ',')
                        cc = cc.replace(' ', '')
                        numbers = cc.split(',')
                        cell_nd[idx] = [float(n) if '.' in n else int(n)
                                        for n in numbers]

                    cell = cell_nd

                # write parsed cell to line
                line[idc] = cell
''', '''                # write parsed cell to line
                line[idc] = _parse_cell(cell)
'''))
r("ref-uc-fields", (UC, '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            convention[line[0]] = {
                field.lower(): line[ff] for ff, field in enumerate(fields, 1)}
'''))
r("ref-uc-fields-zip", (UC, '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            name, *values = line
            entry = {}
            for idf, field in enumerate(fields):
                entry[field.lower()] = values[idf]
            convention[name] = entry
'''))
r("ref-uc-defaults", (UC, '''            if line[1] == "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);":
                # Field Data.SOS in SimpleFreeFieldHRSOS and SimpleFreeFieldSOS
                line[1] = [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]
            if line[1] == "permute([0 0 0 1 0 0], [3 1 2]);":
                # Field Data.SOS in GeneralSOS
                line[1] = [[[0, 0, 0, 1, 0, 0]]]
            if line[1] == "{''}":
                line[1] = ['']
''', '''            default = line[1]
            if default == "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);":
                # Field Data.SOS in SimpleFreeFieldHRSOS and SimpleFreeFieldSOS
                line[1] = [[[0, 0, 0, 1, 0, 0], [0, 0, 0, 1, 0, 0]]]
            elif default == "permute([0 0 0 1 0 0], [3 1 2]);":
                # Field Data.SOS in GeneralSOS
                line[1] = [[[0, 0, 0, 1, 0, 0]]]
            elif default == "{''}":
                line[1] = ['']
'''))
r("ref-uc-reorder", (UC, '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    first = [key for key in convention if "GLOBAL" in key]
    middle = [key for key in convention if "GLOBAL" not in key]
    keys = [key for key in first + middle if not key.startswith("Data")] + \\
        [key for key in convention if key.startswith("Data")]

    return {key: convention[key] for key in keys}
'''))
r("ref-uc-open", (UC, '''    with open(file, 'r', encoding="windows-1252") as fid:
        lines = fid.readlines()
''', '''    with open(file, encoding="windows-1252") as fid:
        lines = list(fid)
'''))
r("ref-uc-congruency", (UC, '''    for convention in sofaconventions.copy():
        if convention.startswith(("General_", "GeneralString_")):
            sofaconventions.remove(convention)
        elif convention not in sofatoolbox:
            sofaconventions.remove(convention)
            report += (f"- {convention} is missing in SOFAtoolbox\\n")
''', '''    for convention in list(sofaconventions):
        ignore = convention.startswith(("General_", "GeneralString_"))
        if ignore or convention not in sofatoolbox:
            sofaconventions.remove(convention)
            if not ignore:
                report += f"- {convention} is missing in SOFAtoolbox\\n"
'''))

_V = '''    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
'''
r("ref-big-names", (SO, '''        # check attributes without variables
        current_error = ""
        for key in keys:

            if self._convention[key]["type"] != "attribute" or \\
                    key.count("_") == 0:
                continue

            if (key[:key.rindex("_")] not in self._convention and
                    not key.startswith("GLOBAL_")):
                current_error += "- " + key + "\\n"

        if current_error:
            error_msg += "Detected attributes with missing variables:\\n"
            error_msg += current_error
''', '''        # check attributes without variables
        error_msg += self._verify_parents(keys)
'''), (SO, _V, '''    def _verify_parents(self, keys):
        """Return error message for attributes without variables."""
        orphans = [
            key for key in keys
            if self._convention[key]["type"] == "attribute"
            and "_" in key
            and not key.startswith("GLOBAL_")
            and key[:key.rindex("_")] not in self._convention]

        if not orphans:
            return ""

        return "Detected attributes with missing variables:\\n" + "".join(
            f"- {key}\\n" for key in orphans)

''' + _V))
r("ref-big-types", (SO, '''        if current_error:
            error_msg += "Detected data of wrong type:\\n"
            error_msg += current_error
''', '''        error_msg = self._append_issues(
            error_msg, "Detected data of wrong type:\\n", current_error)
'''), (SO, '''        if current_error:
            error_msg += "Detected variables of wrong shape:\\n"
            error_msg += current_error
''', '''        error_msg = self._append_issues(
            error_msg, "Detected variables of wrong shape:\\n", current_error)
'''), (SO, '''        if current_error:
            error_msg += "Detected violations of the SOFA convention:\\n"
            error_msg += current_error
''', '''        error_msg = self._append_issues(
            error_msg, "Detected violations of the SOFA convention:\\n",
            current_error)
'''), (SO, _V, '''    @staticmethod
    def _append_issues(message, title, issues):
        """Append issues to message if there are any."""
        return message + title + issues if issues else message

''' + _V))
r("ref-big-shape", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):

                # get the reference shape ('S' translates to a shape of 1,
                # because the strings are stored in an array whose shape does
                # not reflect the max. lengths of the actual strings inside it)
                shape_ref = tuple(
                    [self._api[d.upper()] if d != "S" else 1 for d in dim])

                # get shape for comparison to correct length by cropping and
                # appending singleton dimensions if required
                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''            shape_matched = False
            for dim in dimensions.split(", "):

                # get the reference shape ('S' translates to a shape of 1,
                # because the strings are stored in an array whose shape does
                # not reflect the max. lengths of the actual strings inside it)
                shape_ref = tuple(
                    [self._api[d.upper()] if d != "S" else 1 for d in dim])
                shape_compare = self._match_length(shape_act, len(shape_ref))
'''), (SO, _V, '''    @staticmethod
    def _match_length(shape, length):
        """Crop singleton dimensions or append them to match the length."""
        if all(n == 1 for n in shape[length:]):
            shape = shape[:length]
        if len(shape) < length:
            shape = shape + (1, ) * (length - len(shape))
        return shape

''' + _V))
r("ref-big-actual-shape", (SO, '''            if dtype in ["attribute", "string"]:
                # string or string array like data
                shape_act = self._get_size_and_shape_of_string_var(
                    value, key)[1]
            elif len(dimensions.split(",")[0]) > 1:
                # multidimensional array like data
                shape_act = _atleast_nd(value, 4).shape
            else:
                # scalar of single dimensional array like data
                shape_act = (np.array(value).size, )
''', '''            shape_act = self._actual_shape(value, key, dtype, dimensions)
'''), (SO, _V, '''    def _actual_shape(self, value, key, dtype, dimensions):
        """Return the shape of the data."""
        if dtype in ["attribute", "string"]:
            # string or string array like data
            _, shape = self._get_size_and_shape_of_string_var(value, key)
            return shape
        if len(dimensions.split(",")[0]) > 1:
            # multidimensional array like data
            return _atleast_nd(value, 4).shape
        # scalar of single dimensional array like data
        return (np.array(value).size, )

''' + _V))
r("ref-big-update-api", (SO, '''        S = 0
        for key in keys:

            value = getattr(self, key)
            dimensions = self._convention[key]["dimensions"]
''', '''        sizes = [0]
        for key in keys:

            value = getattr(self, key)
            dimensions = self._convention[key]["dimensions"]
'''), (SO, '''                    S = max(S, np.max(self._get_size_and_shape_of_string_var(
                        value, key)[0]))
''', '''                    sizes.append(np.max(
                        self._get_size_and_shape_of_string_var(
                            value, key)[0]))
'''), (SO, '''        self._api["S"] = S
''', '''        self._api["S"] = max(sizes)
'''))
r("ref-big-specific", (SO, '''            if "specific" in rules[key] \\
                    and test in rules[key]["specific"]:
                items = rules[key]["specific"][test].items()
            else:
                items = {}.items()

            for key_dep, ref_dep in items:
''', '''            specific = rules[key].get("specific", {})
            items = specific[test] if test in specific else {}

            for key_dep, ref_dep in items.items():
'''))
r("ref-big-specific-dims", (SO, '''                    for dim in rules[key]["specific"][test]["_dimensions"]:
                        # possible sizes
                        dim_ref = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value"]
                        # current size
                        dim_act = self._api[dim]
                        # verbose error string for possible sizes
                        dim_str = \\
                            rules[key]["specific"][test][
                                "_dimensions"][dim]["value_str"]
''', '''                    for dim, restriction in ref_dep.items():
                        # possible sizes
                        dim_ref = restriction["value"]
                        # current size
                        dim_act = self._api[dim]
                        # verbose error string for possible sizes
                        dim_str = restriction["value_str"]
'''))
r("ref-big-deprecation", (SO, '''        if self.GLOBAL_SOFAConventions in \\
                deprecations["GLOBAL:SOFAConventions"]:
            convention = self.GLOBAL_SOFAConventions
            msg = ("Detected deprecations:\\n"
                   f"- GLOBAL_SOFAConventions is "
                   f"{self.GLOBAL_SOFAConventions}, which is deprecated. Use "
                   "Sofa.upgrade_convention() to upgrade to "
                   f"{deprecations['GLOBAL:SOFAConventions'][convention]}")
''', '''        convention = self.GLOBAL_SOFAConventions
        replacement = deprecations["GLOBAL:SOFAConventions"].get(convention)
        if replacement is not None:
            msg = ("Detected deprecations:\\n"
                   f"- GLOBAL_SOFAConventions is "
                   f"{convention}, which is deprecated. Use "
                   "Sofa.upgrade_convention() to upgrade to "
                   f"{replacement}")
'''))
r("ref-big-loop-types", (SO, '''            if dtype == "attribute":
                if not isinstance(value, str):
                    current_error += \\
                        f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "double":
''', '''            if dtype == "attribute" and not isinstance(value, str):
                current_error += \\
                    f"- {key} must be string but is {type(value)}\\n"

            elif dtype == "attribute":
                continue

            elif dtype == "double":
'''))
r("ref-big-double", (SO, '''                if not isinstance(
                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'f']):
                    current_error''', '''                if isinstance(value, (np.ndarray, np.number)):
                    valid = value.dtype.kind in "if"
                else:
                    valid = isinstance(value, (int, float))
                if not valid:
                    current_error'''))
r("ref-big-string", (SO, '''                if not isinstance(value, (str, np.ndarray)):
                    current_error += (f"- {key} must be string or numpy array "
                                      f"but is {type(value)}\\n")

                if isinstance(value, np.ndarray) and not (
                        str(value.dtype).startswith('<U') or
                        str(value.dtype).startswith('<S')):
                    current_error''', '''                if isinstance(value, str):
                    continue
                if not isinstance(value, np.ndarray):
                    current_error += (f"- {key} must be string or numpy array "
                                      f"but is {type(value)}\\n")
                elif not str(value.dtype).startswith(('<U', '<S')):
                    current_error'''))
r("ref-big-reserved", (SO, '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
''', '''            is_attribute = self._convention[key]["type"] == "attribute"
            valid_global = key.startswith("GLOBAL_") and is_attribute
            if key.startswith(("PRIVATE", "API")) or \\
                    key.startswith("GLOBAL") and not valid_global:
                current_error += f"- {key}\\n"
'''))
r("ref-big-custom-names", (SO, '''            normative = [n.replace("GLOBAL_", "") for n in normative]

            # compare against custom
            for key in self._custom.keys():
                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
''', '''            normative = {n.replace("GLOBAL_", "") for n in normative}

            # compare against custom
            current_error = "".join(
                f"- {key}\\n" for key in self._custom
                if key.replace("GLOBAL_", "") in normative)
'''))
r("ref-big-keys", (SO, '''        keys = [key for key in self.__dict__.keys()
                if key in self._convention
                and self._convention[key]["dimensions"] is not None]
        if hasattr(self, "_custom"):
            keys_custom = [key for key in self._custom.keys()
                           if not key.startswith("_")
                           and self._custom[key]["dimensions"] is not None]
            keys += keys_custom
''', '''        keys = [key for key in self.__dict__
                if self._convention.get(key, {}).get("dimensions") is not None]
        keys += [key for key, entry in getattr(self, "_custom", {}).items()
                 if not key.startswith("_")
                 and entry["dimensions"] is not None]
'''))
r("ref-big-handled", (SO, '''            _, issues = self._verify_handle_issues(
                    warning_msg, error_msg, issue_handling)

            if issue_handling == "print":
                return
            else:  # (issue_handling == "return"):
                return issues
''', '''            issues = self._verify_handle_issues(
                warning_msg, error_msg, issue_handling)[1]

            return None if issue_handling == "print" else issues
'''))
r("ref-big-refunit", (SO, '''        units = [unit_aliases[u] for u in units_test]
        # get reference unit string
        units = ", ".join(units) if units[0] != "cubic" else " ".join(units)

        return units
''', '''        units = list(map(unit_aliases.__getitem__, units_test))
        # get reference unit string
        separator = " " if units[0] == "cubic" else ", "
        return separator.join(units)
'''))
r("ref-big-latest", (SO, '''            versions = np.array([float(v) for v in versions])
            path = path[np.argmax(versions)]
''', '''            path = max(path, key=lambda p: float(p.split('_')[-1][:-5]))
'''))
r("ref-big-names-dict", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
''', '''        return {re.sub('[:.]', '_', key): value
                for key, value in convention.items()}
'''))
r("ref-big-add-custom", (SO, '''    def _reset_convention(self):
''', '''    def _is_custom(self, name):
        """Return True if `name` is a custom entry."""
        return name in getattr(self, "_custom", ())

    def _reset_convention(self):
'''), (SO, '''            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
''', '''            if self._is_custom(name):
                del self._custom[name]
                self._convention.pop(name, None)
'''))


# ------------------------------------------- unusual idioms, other modules
r("gen-public-names-utils", (UT, '''def list_conventions():
''', '''def _public_names(obj):
    """Names of all public attributes of an object."""
    return [name for name in obj.__dict__.keys() if not name.startswith("_")]


def list_conventions():
'''), (W, '''from .utils import _verify_convention_and_version, _atleast_nd
''', '''from .utils import (_verify_convention_and_version, _atleast_nd,
                    _public_names)
'''), (W, '''    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]
''', '''    all_keys = _public_names(sofa)
'''), (W, '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
''', '''    attrs = _public_names(sofa)
'''), (SO, '''                    _verify_convention_and_version)
''', '''                    _verify_convention_and_version, _public_names)
'''), (SO, '''        missing = ""
        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]
''', '''        missing = ""
        keys = _public_names(self)
'''), (UT, '''    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]
    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]
''', '''    keys_a = _public_names(sofa_a)
    keys_b = _public_names(sofa_b)
'''))
r("gen-yield-attributes", (W, '''def write_sofa(filename: str, sofa: sf.Sofa, compression=4):
''', '''def _attributes(variable, skip):
    """Yield names and values of the attributes of a variable."""
    for attr in variable.ncattrs():
        if attr not in skip:
            yield attr, getattr(variable, attr)


def write_sofa(filename: str, sofa: sf.Sofa, compression=4):
'''), (W, '''            for attr in [a for a in file[var].ncattrs() if a not in skip]:

                value = getattr(file[var], attr)
''', '''            for attr, value in _attributes(file[var], skip):

'''))
r("gen-closure-differ", (UT, '''    # compare the data inside the SOFA object
    for key in keys_a:
''', '''    def differ(message):
        """Warn if desired."""
        return _equals_raise_warning(message, verbose)

    # compare the data inside the SOFA object
    for key in keys_a:
'''), (UT, '''                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''                is_identical = differ(
                    f"not identical: different values for {key}")
'''), (UT, '''            is_identical = _equals_raise_warning(
                (f"not identical: {key} has different data types "
                 f"({type_a}, {type_b})"), verbose)
''', '''            is_identical = differ(
                f"not identical: {key} has different data types "
                f"({type_a}, {type_b})")
'''))
r("gen-partial-differ", (UT, '''import warnings
''', '''import warnings
from functools import partial
'''), (UT, '''    # compare the data inside the SOFA object
    for key in keys_a:
''', '''    differ = partial(_equals_raise_warning, verbose=verbose)

    # compare the data inside the SOFA object
    for key in keys_a:
'''), (UT, '''                is_identical = _equals_raise_warning(
                    f"not identical: different values for {key}", verbose)
''', '''                is_identical = differ(
                    f"not identical: different values for {key}")
'''))
r("gen-exclude-table", (UT, '''        if exclude.upper() == "GLOBAL":
            keys_a = [k for k in keys_a if not k.startswith("GLOBAL_")]
            keys_b = [k for k in keys_b if not k.startswith("GLOBAL_")]
        elif exclude.upper() == "ATTR":
            keys_a = [k for k in keys_a if
                      sofa_a._convention[k]["type"] != "attribute"]
            keys_b = [k for k in keys_b if
                      sofa_b._convention[k]["type"] != "attribute"]
        elif exclude.upper() == "DATE":
            keys_a = [k for k in keys_a if "Date" not in k]
            keys_b = [k for k in keys_b if "Date" not in k]
        else:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
''', '''        skip = {
            "GLOBAL": lambda sofa, k: k.startswith("GLOBAL_"),
            "ATTR": lambda sofa, k:
                sofa._convention[k]["type"] == "attribute",
            "DATE": lambda sofa, k: "Date" in k}
        if exclude.upper() not in skip:
            raise ValueError(
                f"exclude is {exclude} but must be GLOBAL, DATE, or ATTR")
        skip = skip[exclude.upper()]
        keys_a = [k for k in keys_a if not skip(sofa_a, k)]
        keys_b = [k for k in keys_b if not skip(sofa_b, k)]
'''))
r("gen-match-dtype", (W, '''    if dtype == "attribute":
        value = str(value)
        netcdf_dtype = "attribute"
    elif dtype == "double":
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = "f8"
    elif dtype == "string":
        value = np.asarray(value)
        if value.dtype.kind != "S":
            value = np.char.encode(value, "utf-8")
        value = np.array(value, dtype=f"S{str(S)}")
        value = _atleast_nd(value, len(dimensions))
        netcdf_dtype = 'S1'
    else:
        raise ValueError(f"Unknown type {dtype} for {key}")
''', '''    match dtype:
        case "attribute":
            value = str(value)
            netcdf_dtype = "attribute"
        case "double":
            value = _atleast_nd(value, len(dimensions))
            netcdf_dtype = "f8"
        case "string":
            value = np.asarray(value)
            if value.dtype.kind != "S":
                value = np.char.encode(value, "utf-8")
            value = np.array(value, dtype=f"S{str(S)}")
            value = _atleast_nd(value, len(dimensions))
            netcdf_dtype = 'S1'
        case _:
            raise ValueError(f"Unknown type {dtype} for {key}")
'''))
r("gen-chain-paths", (UT, '''import warnings
''', '''import itertools
import warnings
'''), (UT, '''    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
    deprecated = list(
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
    paths = standardized + deprecated
''', '''    paths = list(itertools.chain(
        glob.glob(os.path.join(conventions_path, reg_str)),
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str))))
'''))
r("gen-star-paths", (UT, '''    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
    deprecated = list(
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
    paths = standardized + deprecated
''', '''    standardized = glob.glob(os.path.join(conventions_path, reg_str))
    deprecated = glob.glob(
        os.path.join(conventions_path, "deprecated", reg_str))
    paths = [*standardized, *deprecated]
'''))
r("gen-read-only-filter", (SO, '''        self._read_only_attr = [
            key for key in self._convention.keys()
            if self._read_only(self._convention[key]["flags"])]
''', '''        self._read_only_attr = list(filter(
            lambda key: self._read_only(self._convention[key]["flags"]),
            self._convention))
'''))
r("gen-shape-next", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):

                # get the reference shape ('S' translates to a shape of 1,
                # because the strings are stored in an array whose shape does
                # not reflect the max. lengths of the actual strings inside it)
                shape_ref = tuple(
                    [self._api[d.upper()] if d != "S" else 1 for d in dim])

                # get shape for comparison to correct length by cropping and
                # appending singleton dimensions if required
                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )

                # check if the shapes match and write to API
                if shape_compare == shape_ref:
                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break
''', '''            shape_matched = False
            for dim in dimensions.split(", "):
                shape_compare = self._comparable_shape(shape_act, len(dim))

                # check if the shapes match and write to API
                if shape_compare == self._reference_shape(dim):
                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break
'''), (SO, '''    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
''', '''    def _reference_shape(self, dimensions):
        """
        Shape given by the dimensions ('S' translates to a shape of 1, because
        the strings are stored in an array whose shape does not reflect the
        max. lengths of the actual strings inside it).
        """
        return tuple(1 if d == "S" else self._api[d.upper()]
                     for d in dimensions)

    @staticmethod
    def _comparable_shape(shape, ndim):
        """Crop or append singleton dimensions."""
        if all(n == 1 for n in shape[ndim:]):
            shape = shape[:ndim]
        return shape + (1, ) * (ndim - len(shape))

    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
'''))
r("gen-translate-names", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}

        return convention
''', '''        names = str.maketrans(":.", "__")
        return {
            key.translate(names): value for key, value in convention.items()}
'''))
r("gen-custom-update", (SO, '''            # check if custom fields can be added
            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''            # check if custom fields can be added
            self._convention.update(self._custom)
'''))
r("gen-custom-getattr", (SO, '''        current_error = ""
        if hasattr(self, "_custom"):

            # get normative variables and attributes
            normative = sf.Sofa(
                self.GLOBAL_SOFAConventions,
                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()
            normative = [n.replace("GLOBAL_", "") for n in normative]

            # compare against custom
            for key in self._custom.keys():
                if key.replace("GLOBAL_", "") in normative:
                    current_error += "- " + key + "\\n"
''', '''        current_error = ""
        custom = getattr(self, "_custom", {})
        if custom:

            # get normative variables and attributes
            normative = sf.Sofa(
                self.GLOBAL_SOFAConventions,
                version=self.GLOBAL_SOFAConventionsVersion)
            normative = {n.replace("GLOBAL_", "")
                         for n in normative._convention}

            # compare against custom
            for key in custom:
                if key.replace("GLOBAL_", "") in normative:
                    current_error += f"- {key}\\n"
'''))
r("gen-custom-getattr-dims", (SO, '''        if hasattr(self, "_custom"):
            keys_custom = [key for key in self._custom.keys()
                           if not key.startswith("_")
                           and self._custom[key]["dimensions"] is not None]
            keys += keys_custom
''', '''        for key, entry in getattr(self, "_custom", {}).items():
            if not key.startswith("_") and entry["dimensions"] is not None:
                keys.append(key)
'''))
r("gen-load-pathlib", (SO, '''import os
''', '''import os
from pathlib import Path
'''), (SO, '''        path = [path for path in paths
                if os.path.basename(path).startswith(convention + "_")]

        if not len(path):
''', '''        path = [Path(path) for path in paths
                if Path(path).name.startswith(f"{convention}_")]

        if not path:
'''), (SO, '''        versions = [p.split('_')[-1][:-5] for p in path]
''', '''        versions = [p.stem.split('_')[-1] for p in path]
'''), (SO, '''        # read convention from json file
        with open(path, "r") as file:
            convention = json.load(file)
''', '''        # read convention from json file
        with path.open("r") as file:
            convention = json.load(file)
'''))
r("gen-removeprefix-write", (W, '''            setattr(file, key[7:], str(getattr(sofa, key)))
''', '''            setattr(file, key.removeprefix("GLOBAL_"),
                    str(getattr(sofa, key)))
'''), (W, '''                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
''', '''                setattr(tmp_var, sub_key.removeprefix(f"{key}_"),
                        str(getattr(sofa, sub_key)))
'''))
r("gen-removeprefix-stream", (SS, '''        name_netcdf = name[7:] if is_global else name
''', '''        name_netcdf = name.removeprefix('GLOBAL_')
'''))
r("gen-walrus-stream", (SS, '''        file = self.__dict__.get('_file')
        if file is None or not file.isopen():
''', '''        if (file := self.__dict__.get('_file')) is None or \\
                not file.isopen():
'''))
r("gen-walrus-units", (SO, '''            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''            for key in keys:
                if (unit := getattr(self, key)) != unit.lower():
'''))
r("gen-types-helper-message", (SO, '''    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
''', '''    @staticmethod
    def _double_error(value):
        """Describe why a value can not be stored as double."""
        if not isinstance(value, (int, float, np.ndarray, np.number)):
            return f"must be int or float but is {type(value)}"
        if isinstance(value, (np.ndarray, np.number)) and \\
                value.dtype.kind not in ['i', 'f']:
            return f"must be int or float but is {type(value)}"
        return None

    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
'''), (SO, '''                if not isinstance(
                        value, (int, float, np.ndarray, np.number)) or \\
                        (isinstance(value, (np.ndarray, np.number)) and
                         value.dtype.kind not in ['i', 'f']):
                    current_error += (f"- {key} must be int or float "
                                      f"but is {type(value)}\\n")
''', '''                if (error := self._double_error(value)) is not None:
                    current_error += f"- {key} {error}\\n"
'''))
r("gen-reserved-helper-yield", (SO, '''        current_error = ""
        for key in keys:

            # AES69 Sec. 4.7.1
            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
''', '''        current_error = "".join(
            f"- {key}\\n" for key in self._reserved_names(keys))
'''), (SO, '''    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
''', '''    def _reserved_names(self, keys):
        """Names that use the key words of AES69 Sec. 4.7.1."""
        for key in keys:
            if key.startswith(("PRIVATE", "API")):
                yield key
            elif key.startswith("GLOBAL") and not (
                    key.startswith("GLOBAL_") and
                    self._convention[key]["type"] == "attribute"):
                yield key

    @staticmethod
    def _verify_value(test, ref, unit_aliases, key):
'''))
r("gen-names-one-loop", (SO, '''        # check number of underscores
        current_error = ""
        for key in keys:

            if self._convention[key]["type"] != "attribute":
                continue

            # the case above caught attributes with too many underscores
            if key.count("_") == 0:
                current_error += "- " + key + "\\n"
''', '''        # check number of underscores (the case above caught attributes with
        # too many underscores)
        current_error = "".join([
            f"- {key}\\n" for key in keys
            if self._convention[key]["type"] == "attribute"
            and "_" not in key])
'''))
r("gen-nonlocal-report", (SO, '''        # 3. Verify names of entries
''', '''        # 3. Verify names of entries
        def report(header, issues):
            nonlocal error_msg
            if issues:
                error_msg += header + issues
'''), (SO, '''        if current_error:
            error_msg += "Detected attributes with missing variables:\\n"
            error_msg += current_error
''', '''        report("Detected attributes with missing variables:\\n", current_error)
'''), (SO, '''        if current_error:
            error_msg += (
                "Detected variable or attribute with reserved key words "
                "PRIVATE, API, or GLOBAL:\\n")
            error_msg += current_error
''', '''        report("Detected variable or attribute with reserved key words "
               "PRIVATE, API, or GLOBAL:\\n", current_error)
'''))
r("gen-inspect-stringio", (SS, '''        # write to text file
        if file is not None:
            with open(file, 'w', encoding='utf-8') as f_id:
                f_id.write(info_str + "\\n")
''', '''        # write to text file
        if file is not None:
            with open(file, 'w', encoding='utf-8') as f_id:
                print(info_str, file=f_id)
'''))
r("gen-enumerate-write", (W, '''        keys = [key for key in all_keys if key.startswith("GLOBAL_")]
        for key in keys:
            setattr(file, key[7:], str(getattr(sofa, key)))
''', '''        for key in all_keys:
            prefix, _, name = key.partition("_")
            if prefix == "GLOBAL" and key.startswith("GLOBAL_"):
                setattr(file, name, str(getattr(sofa, key)))
'''))
r("gen-percent-format", (UT, '''        raise ValueError(
            f"Convention '{convention}' does not exist")
''', '''        raise ValueError("Convention '%s' does not exist" % convention)
'''), (SO, '''                missing += "- " + key + "\\n"
''', '''                missing += "- {}\\n".format(key)
'''))
r("gen-decorator-version", (SO, '''            if verify == 'auto':
                verify = True if parse(version) >= parse('1.0') else False
''', '''            verify = parse(version) >= parse('1.0') if verify == 'auto' \\
                else verify
'''), (W, '''    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False
''', '''    if verify == 'auto':
        verify = not parse(version) < parse('1.0')
'''))
r("gen-rules-names-local", (SO, '''        for key in rules.keys():

            # convert to sofar format
            key_sofar = key.replace(".", "_").replace(":", "_")

            if not hasattr(self, key_sofar):
                continue

            # actual and possible values for the current key
            test = getattr(self, key_sofar)
            ref = rules[key]["value"]
''', '''        def to_sofar(name):
            """Convert name to sofar format."""
            return name.replace(".", "_").replace(":", "_")

        for key, rule in rules.items():

            key_sofar = to_sofar(key)

            if not hasattr(self, key_sofar):
                continue

            # actual and possible values for the current key
            test, ref = getattr(self, key_sofar), rule["value"]
'''), (SO, '''                key_dep = key_dep.replace(".", "_").replace(":", "_")
''', '''                key_dep = to_sofar(key_dep)
'''), (SO, '''                    key_dep_sofar = key_dep.replace(".", "_").replace(":", "_")
''', '''                    key_dep_sofar = to_sofar(key_dep)
'''))
r("gen-upgrade-names-static", (SO, '''            source_sofar = source.replace(".", '_').replace(":", "_")
            target_sofar = move["target"].replace(".", '_').replace(":", "_")
''', '''            source_sofar, target_sofar = map(
                self._sofar_name, (source, move["target"]))
'''), (SO, '''            target_sofar = target.replace(".", '_').replace(":", "_")
            # nothing to delete if optional data are not contained
''', '''            target_sofar = self._sofar_name(target)
            # nothing to delete if optional data are not contained
'''), (SO, '''    def _apply_upgrade(self, upgrade):
''', '''    @staticmethod
    def _sofar_name(name):
        """Convert name from NetCDF format to sofar format."""
        for separator in ".:":
            name = name.replace(separator, "_")
        return name

    def _apply_upgrade(self, upgrade):
'''))
r("gen-csv-pathlib", (UC, '''    csv_files = glob.glob(os.path.join(conventions_path, "*.csv")) + \\
        glob.glob(os.path.join(conventions_path, "deprecated", "*.csv"))

    for csv_file in csv_files:
''', '''    csv_files = []
    for folder in ("", "deprecated"):
        csv_files.extend(
            glob.glob(os.path.join(conventions_path, folder, "*.csv")))

    for csv_file in csv_files:
'''))
r("gen-csv-dict-zip", (UC, '''            convention[line[0]] = {}
            for ff, field in enumerate(fields):
                convention[line[0]][field.lower()] = line[ff + 1]
''', '''            name, *values = line
            convention[name] = {
                field.lower(): values[ff] for ff, field in enumerate(fields)}
'''))
r("gen-csv-numbers", (UC, '''def _convention_csv2dict(file: str):
''', '''def _number(text):
    """Convert text to int or float."""
    return float(text) if '.' in text else int(text)


def _convention_csv2dict(file: str):
'''), (UC, '''                    cell = [float(n) if '.' in n else int(n) for n in numbers]
''', '''                    cell = list(map(_number, numbers))
'''), (UC, '''                        cell_nd[idx] = [float(n) if '.' in n else int(n)
                                        for n in numbers]
''', '''                        cell_nd[idx] = [_number(n) for n in numbers]
'''))
r("gen-csv-sort", (UC, '''    keys = list(convention.keys())
    for key in keys:
        if "GLOBAL" not in key:
            convention[key] = convention.pop(key)
    # 1. Move Data entries to the end
    for key in keys:
        if key.startswith("Data"):
            convention[key] = convention.pop(key)

    return convention
''', '''    # 2. Move Data entries to the end
    keys = sorted(convention, key=lambda key: (
        "GLOBAL" not in key, key.startswith("Data")))

    return {key: convention[key] for key in keys}
'''))
r("gen-names-sets", (UT, '''    # check for equal length
    if len(keys_a) != len(keys_b):
''', '''    # check for equal length
    number_a, number_b = len(keys_a), len(keys_b)
    if number_a != number_b:
'''), (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if set(keys_a) ^ set(keys_b):
'''))
r("gen-protect-decorator", (SO, '''class Sofa():
''', '''def _unprotected(method):
    """Lift the write protection while a method is executed."""
    @functools.wraps(method)
    def wrapper(self, *args, **kwargs):
        self.protected = False
        try:
            return method(self, *args, **kwargs)
        finally:
            self.protected = True
    return wrapper


class Sofa():
'''), (SO, '''import os
''', '''import os
import functools
'''), (SO, '''        self.protected = False
        try:
            self._apply_upgrade(upgrade)
        finally:
            self.protected = True
''', '''        self._apply_upgrade(upgrade)
'''), (SO, '''    def _apply_upgrade(self, upgrade):
''', '''    @_unprotected
    def _apply_upgrade(self, upgrade):
'''))
r("gen-exitstack-write", (W, '''    with Dataset(filename, "w", format="NETCDF4") as file:
''', '''    with contextlib.ExitStack() as stack:
        file = stack.enter_context(Dataset(filename, "w", format="NETCDF4"))
'''))
r("gen-closing-read", (W, '''    with Dataset(filename, "r", format="NETCDF4") as file:
''', '''    with contextlib.closing(
            Dataset(filename, "r", format="NETCDF4")) as file:
'''))

# idioms of another author -------------------------------------------------------
r("hx-load-regex", (SO, LC, '''        pattern = re.compile(re.escape(convention) + r"_[^_]*\\.json")
        path = [p for p in paths if pattern.fullmatch(os.path.basename(p))]
'''))
r("hx-load-pattern", (SO, LC, '''        prefix = f"{convention}_"
        path = list(filter(
            lambda p: os.path.basename(p).startswith(prefix), paths))
'''))
r("hx-convs-pathlib", (UT, '''    standardized = list(glob.glob(os.path.join(conventions_path, reg_str)))
    deprecated = list(
        glob.glob(os.path.join(conventions_path, "deprecated", reg_str)))
    paths = standardized + deprecated
''', '''    folder = pathlib.Path(conventions_path)
    paths = [str(p) for p in folder.glob(reg_str)]
    paths += [str(p) for p in (folder / "deprecated").glob(reg_str)]
'''), (UT, "import os\n", "import os\nimport pathlib\n"))
r("hx-missing-dict", (SO, '''        # loop data in convention
        for key in self._convention.keys():
            is_mandatory = self._mandatory(self._convention[key]["flags"])
            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
                setattr(self, key, self._convention[key]["default"])
                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''        # get missing data and their kind
        missing = {}
        for key, entry in self._convention.items():
            kind = "mandatory" if self._mandatory(entry["flags"]) \\
                else "optional"
            requested = mandatory if kind == "mandatory" else optional
            if requested and key not in keys:
                missing[key] = kind

        # add with default
        for key, kind in missing.items():
            setattr(self, key, self._convention[key]["default"])
            added += f"- {key} ({kind})\\n"
'''))
r("hx-protected-dict", (SO, '''        self._protected = value
''', '''        super().__setattr__("_protected", value)
'''))
r("hx-flags-or", (SO, '''        # skip optional fields if requested
        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory''', '''        return "m" in (flags or "")'''), (SO, '''        # skip optional fields if requested
        if flags is None:
            is_read_only = False
        elif "r" not in flags:
            is_read_only = False
        else:
            is_read_only = True

        return is_read_only''', '''        return "r" in (flags or "")'''))
r("hx-value-kind", (W, '''    if "float" in str(value.dtype) or "int" in str(value.dtype):
''', '''    if value.dtype.kind in "fiu":
'''))
r("hx-value-isinstance", (W, '''    with contextlib.suppress(AttributeError):
        value = value.copy()
''', '''    if hasattr(value, "copy"):
        value = value.copy()
'''))
r("hx-rules-multi-with", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
''', '''        with open(os.path.join(base, "rules.json"), "r") as file, \\
                open(os.path.join(base, "unit_aliases.json"), "r") as units:
            rules = json.load(file)
            unit_aliases = json.load(units)
'''))
r("hx-reset-merge", (SO, '''            # check of custom fields can be removed
            for key in self._convention:
                if key in self._custom:
                    del self._custom[key]

            # check if custom fields can be added
            for key in self._custom:
                self._convention[key] = self._custom[key]
''', '''            # custom fields that are part of the convention are obsolete
            for key in set(self._custom) & set(self._convention):
                del self._custom[key]

            # add remaining custom fields
            self._convention |= self._custom
'''))
r("hx-string-size", (SO, '''            S = max(size(v) for v in value)
            shape = np.array(value).shape
        elif isinstance(value, np.ndarray):
            S = np.max(np.vectorize(size)(value))
            shape = value.shape
''', '''            S = max(map(size, value))
            shape = np.array(value).shape
        elif isinstance(value, np.ndarray):
            S = max(size(v) for v in value.flatten())
            shape = value.shape
'''))
r("hx-annotated", (SO, '''        missing = ""
        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]

        for key in self._convention.keys():
            if self._mandatory(self._convention[key]["flags"]) \\
                    and key not in keys:
''', '''        missing: str = ""
        keys: list = [key for key in vars(self) if key[0] != "_"]

        for key, entry in self._convention.items():
            if key not in keys and self._mandatory(entry["flags"]):
'''))
r("hx-verify-attrs-dict", (SO, '''        current_error = ""
        for key in keys:

            # handle dimensions
            dimensions = self._convention[key]["dimensions"]
            dtype = self._convention[key]["type"]

            # check data type
            value = getattr(self, key)

            if dtype == "attribute":
''', '''        current_error = ""
        for key, value in [(k, getattr(self, k)) for k in keys]:

            # check data type
            dtype = self._convention[key]["type"]

            if dtype == "attribute":
'''))
r("hx-verify-underscore-regex", (SO, '''            if "_" in key.replace("Data_", ""):
                current_error += "- " + key + "\\n"
''', '''            name = key.replace("Data_", "")
            if name.count("_") > 0:
                current_error += f"- {key}\\n"
'''))
r("hx-verify-reserved-any", (SO, '''            if key.startswith("PRIVATE") or key.startswith("API"):
                current_error += "- " + key + "\\n"
            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\
                    (key.startswith("GLOBAL") and
                     self._convention[key]["type"] != "attribute"):
                current_error += "- " + key + "\\n"
''', '''            is_attribute = self._convention[key]["type"] == "attribute"
            reserved = key.startswith(("PRIVATE", "API"))
            if key.startswith("GLOBAL"):
                reserved = not (key.startswith("GLOBAL_") and is_attribute)
            if reserved:
                current_error += "- " + key + "\\n"
'''))
r("hx-verify-sizes-dict", (SO, '''        # add fixed sizes
        self._api["C"] = 3
        self._api["I"] = 1
        self._api["S"] = S
''', '''        # add fixed sizes
        self._api.update(C=3, I=1, S=S)
'''))
r("hx-verify-shape-fn", (SO, '''                # get shape for comparison to correct length by cropping and
                # appending singleton dimensions if required
                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                # get shape for comparison to correct length by cropping and
                # appending singleton dimensions if required
                ndim = len(shape_ref)
                excess = shape_act[ndim:]
                shape_compare = shape_act
                if not any(n != 1 for n in excess):
                    shape_compare = shape_act[:ndim]
                if len(shape_compare) < ndim:
                    shape_compare += (1, ) * (ndim - len(shape_compare))
'''))
r("hx-verify-shape-for-else", (SO, '''            shape_matched = False
            for dim in dimensions.split(", "):
''', '''            for dim in dimensions.split(", "):
'''), (SO, '''                if shape_compare == shape_ref:
                    shape_matched = True
                    self._dimensions[key] = dim.upper()
                    break

            if not shape_matched:
                # get''', '''                if shape_compare == shape_ref:
                    self._dimensions[key] = dim.upper()
                    break
            else:
                # get'''))
r("hx-verify-general-missing", (SO, '''            items = rules[key]["general"] if "general" in rules[key] else []

            for key_dep in items:

                # convert key to sofar format
                key_dep = key_dep.replace(".", "_").replace(":", "_")

                # check if dependency is contained in SOFA object hard to test,
                # for mandatory fields (added by sofar by default).
                if not hasattr(self, key_dep):
                    current_error += (f"- {key_dep} must be given if "
                                      f"{key_sofar} is in SOFA object\\n")
                    continue
''', '''            required = [name.replace(".", "_").replace(":", "_")
                        for name in rules[key].get("general", [])]
            current_error += "".join(
                f"- {name} must be given if {key_sofar} is in SOFA object\\n"
                for name in required if not hasattr(self, name))
'''))
r("hx-handle-match", (SO, '''        if warning_msg != "\\nWARNINGS\\n--------\\n":
            if issue_handling == "raise":
                warnings.warn(UserWarning(warning_msg), stacklevel=2)
            elif issue_handling == "print":
                print(warning_msg)
        else:
            warning_msg = None
''', '''        has_warnings = warning_msg != "\\nWARNINGS\\n--------\\n"
        if has_warnings:
            match issue_handling:
                case "raise":
                    warnings.warn(UserWarning(warning_msg), stacklevel=2)
                case "print":
                    print(warning_msg)
        else:
            warning_msg = None
'''))
r("hx-handle-filter", (SO, '''        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None

        return error_occurred, issues''', '''        messages = [msg for msg in (error_msg, warning_msg) if msg]
        issues = "\\n".join(messages) if messages else None

        return error_occurred, issues'''))
r("hx-st-regex", (SS, '''        is_global = name.startswith('GLOBAL_')
        name_netcdf = name[7:] if is_global else name
''', '''        prefix = 'GLOBAL_'
        is_global = name[:len(prefix)] == prefix
        name_netcdf = name[len(prefix):] if is_global else name
'''))
r("hx-st-nested", (SS, '''        # get value if passed attribute points to a netCDF4-variable
        if name_netcdf in dset_variables and not is_global:
            # get variable from SOFA-file
            self._data = self._file.variables[name_netcdf]
            if var_attr is not None:
                self._data = self._data.getncattr(var_attr)

        # get value if passed attribute points to a netCDF4-attribute
        elif name_netcdf in dset_attributes and is_global:
            # get attribute value from SOFA-file
            self._data = self._file.getncattr(name_netcdf)

        else:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        return self._data
''', '''        known = dset_attributes if is_global else dset_variables
        if name_netcdf not in known:
            raise AttributeError(f"{name} is not contained in SOFA-file")

        if is_global:
            self._data = self._file.getncattr(name_netcdf)
        else:
            variable = self._file.variables[name_netcdf]
            self._data = variable if var_attr is None \\
                else variable.getncattr(var_attr)

        return self._data
'''))
r("hx-uc-pathlib", (UC, '''                with open(standardized_csv, "rb") as file:
                    data_current = b"".join(file.readlines())
                    data_current = data_current.replace(
                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
''', '''                data_current = pathlib.Path(standardized_csv).read_bytes()
                data_current = data_current.replace(
                    b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")
'''), (UC, '''                    with open(os.path.join(temp, 'deprecated', convention),
                              "wb") as file:
                        file.write(data)
''', '''                    (pathlib.Path(temp) / 'deprecated' / convention
                     ).write_bytes(data)
'''), (UC, "import os\n", "import os\nimport pathlib\n"))
r("hx-uc-namedtuple", (UC, '''            for convention in deprecate:
                shutil.copy(
                    os.path.join(temp, 'deprecated', convention),
                    os.path.join(conventions_path, 'deprecated', convention))
''', '''            staged, installed = [
                os.path.join(folder, 'deprecated')
                for folder in (temp, conventions_path)]
            for convention in deprecate:
                shutil.copy(os.path.join(staged, convention), installed)
'''))
r("hx-uc-listing-fn", (UC, '''    page = requests.get(urls[0])
    page.raise_for_status()
    soup = BeautifulSoup(page.text, 'html.parser')
    standardized = [os.path.split(node.get('href'))[1]
                    for node in soup.find_all('a')
                    if node.get('href').endswith(ext)]
''', '''    def list_files(url):
        page = requests.get(url)
        page.raise_for_status()
        soup = BeautifulSoup(page.text, 'html.parser')
        links = (node.get('href') for node in soup.find_all('a'))
        return [os.path.basename(link) for link in links
                if link.endswith(ext)]

    standardized = list_files(urls[0])
'''))
r("hx-uc-prompt-loop", (UC, '''            response = input()
            if response != "y":
''', '''            confirmed = input() == "y"
            if not confirmed:
'''))
r("hx-add-constants", (SO, '''        if dtype not in ["attribute", "double", "string"]:
            raise ValueError(''', '''        allowed = frozenset(("attribute", "double", "string"))
        if not isinstance(dtype, str) or dtype not in allowed:
            raise ValueError('''))
r("hx-add-rindex", (SO, '''            if not name.startswith("GLOBAL_") and \\
                    name[:name.rindex("_")] not in self._convention:
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {name[:name.rindex('_')]}"))
''', '''            variable, _, _ = name.rpartition("_")
            if variable != "GLOBAL" and variable not in self._convention \\
                    and not name.startswith("GLOBAL_"):
                raise ValueError((f"Adding Attribute {name} requires "
                                  f"variable {variable}"))
'''))
r("hx-custom-else", (SO, '''        try:
            setattr(self, key, value)
        except Exception:
            self.protected = True
            raise

        # lower''', '''        added = False
        try:
            setattr(self, key, value)
            added = True
        finally:
            if not added:
                self.protected = True

        # lower'''))
r("hx-eq-generator", (UT, '''    # check for equal length
    if len(keys_a) != len(keys_b):
        return _equals_raise_warning((
            f"not identical: sofa_a has {len(keys_a)} attributes for "
            f"comparison and sofa_b has {len(keys_b)}."), verbose)

    # check if the keys match
    if set(keys_a) != set(keys_b):
''', '''    # check for equal length
    n_a, n_b = len(keys_a), len(keys_b)
    if n_a != n_b:
        return _equals_raise_warning((
            f"not identical: sofa_a has {n_a} attributes for "
            f"comparison and sofa_b has {n_b}."), verbose)

    # check if the keys match
    if any(key not in keys_b for key in keys_a):
'''))
r("hx-eq-types-tuple", (UT, '''        type_a = sofa_a._convention[key]["type"]
        type_b = sofa_b._convention[key]["type"]

        # compare attributes
        if type_a == "attribute" and type_b == "attribute":
''', '''        type_a, type_b = [sofa._convention[key]["type"]
                          for sofa in (sofa_a, sofa_b)]

        # compare attributes
        if type_a == type_b == "attribute":
'''))
r("hx-ut-versions-set", (UT, '''    name_version = _get_conventions("name_version")

    # check which version is wanted
    version_exists = False
    for versions in name_version:
        # check if convention and version match
        if versions[0] == convention \\
                and str(float(versions[1])) == version:
            version_exists = True

    if not version_exists:
''', '''    versions = {str(float(v)) for name, v in _get_conventions("name_version")
                if name == convention}

    if version not in versions:
'''))
r("hx-io-remove-set", (W, '''    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    attrs = {attr for attr in vars(sofa) if not attr.startswith("_")}
    for attr in attrs.difference(all_attr):
        delattr(sofa, attr)
'''))
r("hx-io-verify-flag", (W, '''    if verify == 'auto':
        verify = True if parse(version) >= parse('1.0') else False
''', '''    verify = parse(version) >= parse('1.0') if verify == 'auto' else verify
'''))
r("hx-upgrade-setattr", (SO, '''        keys = ["GLOBAL_SOFAConventions",
                "GLOBAL_SOFAConventionsVersion",
                "GLOBAL_Version",
                "GLOBAL_DataType"]

        for key in keys:
            setattr(self, key, self._convention[key]["default"])
''', '''        for key in ("SOFAConventions", "SOFAConventionsVersion",
                    "Version", "DataType"):
            key = f"GLOBAL_{key}"
            setattr(self, key, self._convention[key]["default"])
'''))
r("hx-upgrade-move-unpack", (SO, '''            moveaxis = upgrade["move"][source]["moveaxis"]
            if moveaxis is not None:
''', '''            moveaxis = move["moveaxis"]
            if moveaxis is not None:
'''), (SO, '''                while data.ndim < np.max(moveaxis) + 1:
                    data = data[..., None]
                # move the axis
                data = np.moveaxis(data, moveaxis[0], moveaxis[1])
''', '''                data = _nd_newaxis(data, np.max(moveaxis) + 1)
                # move the axis
                data = np.moveaxis(data, *moveaxis)
'''))
r("hx-updim-return", (SO, '''        issues = self.verify(issue_handling="return")
        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
''', '''        issues = self.verify(issue_handling="return") or ""
        fatal = ("data of wrong type", "variables of wrong shape")
        if any(text in issues for text in fatal):
'''))
r("hx-csv-cells", (UC, '''                cell = None if cell.replace(' ', '') == '' else cell.strip()
                # nothing to do for empty cells
                if cell is None:
                    line[idc] = cell
                    continue
''', '''                cell = cell.strip(" ") and cell.strip()

                # nothing to do for empty cells
                if not cell:
                    line[idc] = None
                    continue
'''))
r("hx-load-translate", (SO, '''        convention = {
            key.replace(':', '_'): value for key, value in convention.items()}
        convention = {
            key.replace('.', '_'): value for key, value in convention.items()}
''', '''        convention = {re.sub("[:.]", "_", key): convention[key]
                      for key in convention}
'''))
r("hx-default-ndim", (SO, '''            default = self._convention[key]["default"]
            if isinstance(default, list):
                ndim = len(self._convention[key]["dimensions"].split(", ")[0])
                default = _atleast_nd(default, ndim)
''', '''            entry = self._convention[key]
            default = entry["default"]
            if isinstance(default, list):
                dimensions, *_ = entry["dimensions"].split(", ")
                default = _atleast_nd(default, len(dimensions))
'''))
r("hx-load-match-groups", (SO, LC, '''        path, versions = [], []
        for p in paths:
            match = re.fullmatch(
                r"([^_]+)_([0-9.]+)\\.json", os.path.basename(p))
            if match is not None and match.group(1) == convention:
                path.append(p)
                versions.append(match.group(2))
'''), (SO, '''        versions = [p.split('_')[-1][:-5] for p in path]

''', '''
'''))

# verification in parts (generated from the source)
r("iz-verify-parts", (SO, '        # 2. verify data type\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # check data type\n            value = getattr(self, key)\n\n            if dtype == "attribute":\n                if not isinstance(value, str):\n                    current_error += \\\n                        f"- {key} must be string but is {type(value)}\\n"\n\n            elif dtype == "double":\n                # All variables can be of type float or int, and are converted\n                # to float when writing.\n                # sofar does not force the user to pass data as numpy arrays.\n                # We thus check for allowed instances (int, float, numpy) and\n                # specifically for the type of numpy arrays.\n                if not isinstance(\n                        value, (int, float, np.ndarray, np.number)) or \\\n                        (isinstance(value, (np.ndarray, np.number)) and\n                         value.dtype.kind not in [\'i\', \'f\']):\n                    current_error += (f"- {key} must be int or float "\n                                      f"but is {type(value)}\\n")\n\n            elif dtype == "string":\n                # multiple checks needed because sofar does not force the user\n                # to initially pass data as numpy arrays\n                if not isinstance(value, (str, np.ndarray)):\n                    current_error += (f"- {key} must be string or numpy array "\n                                      f"but is {type(value)}\\n")\n\n                if isinstance(value, np.ndarray) and not (\n                        str(value.dtype).startswith(\'<U\') or\n                        str(value.dtype).startswith(\'<S\')):\n                    current_error += (f"- {key} must be U or S "\n                                      f"but is {type(value.dtype)}\\n")\n\n            else:\n                # Could only be tested by manipulating JSON convention files\n                # (Could take different data types in the future and convert to\n                # numpy double arrays.)\n                current_error += (\n                    f"- {key}: Error in convention. Type must be "\n                    f"double, string, or attribute but is {dtype}\\n")\n\n        if current_error:\n            error_msg += "Detected data of wrong type:\\n"\n            error_msg += current_error\n\n',
  '        error_msg += self._verify_types(keys)\n\n'), (SO, '        # 3. Verify names of entries\n\n        # check attributes without variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute" or \\\n                    key.count("_") == 0:\n                continue\n\n            if (key[:key.rindex("_")] not in self._convention and\n                    not key.startswith("GLOBAL_")):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += "Detected attributes with missing variables:\\n"\n            error_msg += current_error\n\n        # check number of underscores\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute":\n                continue\n\n            # the case above caught attributes with too many underscores\n            if key.count("_") == 0:\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected attribute names with too many or little underscores."\n                " Names must have the form Variable_Attribute, Data_Attribute "\n                "(one underscore), or Data_Variable_Attribute (two "\n                "underscores):\\n")\n            error_msg += current_error\n\n        # check numeric variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] == "attribute":\n                continue\n\n            if "_" in key.replace("Data_", ""):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected variable names with too many underscores."\n                "Underscores are only allowed for the variable Data:\\n")\n            error_msg += current_error\n\n        # check reserved names\n        current_error = ""\n        for key in keys:\n\n            # AES69 Sec. 4.7.1\n            if key.startswith("PRIVATE") or key.startswith("API"):\n                current_error += "- " + key + "\\n"\n            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\\n                    (key.startswith("GLOBAL") and\n                     self._convention[key]["type"] != "attribute"):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected variable or attribute with reserved key words "\n                "PRIVATE, API, or GLOBAL:\\n")\n            error_msg += current_error\n\n        # check names of custom data (shall not have the same name as\n        # normative data contained in the convention AES69-2022 Sec. 5.3)\n        current_error = ""\n        if hasattr(self, "_custom"):\n\n            # get normative variables and attributes\n            normative = sf.Sofa(\n                self.GLOBAL_SOFAConventions,\n                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()\n            normative = [n.replace("GLOBAL_", "") for n in normative]\n\n            # compare against custom\n            for key in self._custom.keys():\n                if key.replace("GLOBAL_", "") in normative:\n                    current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected custom variable or attribute with reserved names. "\n                "Custom data shall not have the same name as data contained in"\n                " the convention itself:\\n")\n            error_msg += current_error\n\n',
  '        error_msg += self._verify_names(keys)\n\n'), (SO, '        # get keys for checking the dimensions (all SOFA variables)\n        keys = [key for key in self.__dict__.keys()\n                if key in self._convention\n                and self._convention[key]["dimensions"] is not None]\n        if hasattr(self, "_custom"):\n            keys_custom = [key for key in self._custom.keys()\n                           if not key.startswith("_")\n                           and self._custom[key]["dimensions"] is not None]\n            keys += keys_custom\n\n        S = 0\n        for key in keys:\n\n            value = getattr(self, key)\n            dimensions = self._convention[key]["dimensions"]\n\n            # - dimensions are given as string, e.g., \'mRN\', or \'IC, MC\'\n            # - defined by lower case letters in `dimensions`\n            for idx, dim in enumerate(dimensions.split(", ")[0]):\n                if dim not in "ICS" and dim.islower():\n                    # numeric data\n                    self._api[dim.upper()] = \\\n                        _nd_newaxis(value, 4).shape[idx]\n                if dim == "S":\n                    # string data\n                    S = max(S, np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0]))\n\n        # add fixed sizes\n        self._api["C"] = 3\n        self._api["I"] = 1\n        self._api["S"] = S\n\n',
  '        keys = self._detect_dimensions()\n\n'), (SO, '        # 5. verify dimensions of data\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # get value and actual shape\n            try:\n                value = getattr(self, key).copy()\n            except AttributeError:\n                value = getattr(self, key)\n\n            if dtype in ["attribute", "string"]:\n                # string or string array like data\n                shape_act = self._get_size_and_shape_of_string_var(\n                    value, key)[1]\n            elif len(dimensions.split(",")[0]) > 1:\n                # multidimensional array like data\n                shape_act = _atleast_nd(value, 4).shape\n            else:\n                # scalar of single dimensional array like data\n                shape_act = (np.array(value).size, )\n\n            shape_matched = False\n            for dim in dimensions.split(", "):\n\n                # get the reference shape (\'S\' translates to a shape of 1,\n                # because the strings are stored in an array whose shape does\n                # not reflect the max. lengths of the actual strings inside it)\n                shape_ref = tuple(\n                    [self._api[d.upper()] if d != "S" else 1 for d in dim])\n\n                # get shape for comparison to correct length by cropping and\n                # appending singleton dimensions if required\n                shape_compare = shape_act\n                if all(n == 1 for n in shape_act[len(shape_ref):]):\n                    shape_compare = shape_act[:len(shape_ref)]\n                for _ in range(len(shape_ref) - len(shape_compare)):\n                    shape_compare += (1, )\n\n                # check if the shapes match and write to API\n                if shape_compare == shape_ref:\n                    shape_matched = True\n                    self._dimensions[key] = dim.upper()\n                    break\n\n            if not shape_matched:\n                # get possible dimensions in verbose form, i.e., "(M=2, C=3)""\n                dimensions_verbose = []\n                for dim in dimensions.upper().replace(" ", "").split(","):\n                    dimensions_verbose.append(\n                        f"({\', \'.join([f\'{d}={self._api[d]}\' for d in dim])})")\n\n                current_error += (\n                    f"- {key} has shape {shape_compare} but must "\n                    f"have {\', \'.join(dimensions_verbose)}\\n")\n\n        if current_error:\n            error_msg += "Detected variables of wrong shape:\\n"\n            error_msg += current_error\n\n',
  '        error_msg += self._verify_dimensions(keys)\n\n'), (SO, '        # 6. check restrictions on the content of SOFA files\n        rules, unit_aliases, deprecations, _ = self._verification_rules()\n\n        current_error = ""\n        for key in rules.keys():\n\n            # convert to sofar format\n            key_sofar = key.replace(".", "_").replace(":", "_")\n\n            if not hasattr(self, key_sofar):\n                continue\n\n            # actual and possible values for the current key\n            test = getattr(self, key_sofar)\n            ref = rules[key]["value"]\n\n            # test if the value is valid\n            if not self._verify_value(test, ref, unit_aliases, key_sofar):\n                current_error += (f"- {key_sofar} is {test} "\n                                  f"but must be {\', \'.join(ref)}\\n")\n\n            # get lower case value for of test for verifying specific\n            # dependencies\n            if isinstance(test, str) and test.lower() in \\\n                    ["cartesian", "spherical", "spherical harmonics"]:\n                test = test.lower()\n\n            # check general dependencies\n            items = rules[key]["general"] if "general" in rules[key] else []\n\n            for key_dep in items:\n\n                # convert key to sofar format\n                key_dep = key_dep.replace(".", "_").replace(":", "_")\n\n                # check if dependency is contained in SOFA object hard to test,\n                # for mandatory fields (added by sofar by default).\n                if not hasattr(self, key_dep):\n                    current_error += (f"- {key_dep} must be given if "\n                                      f"{key_sofar} is in SOFA object\\n")\n                    continue\n\n            # check specific dependencies\n            if "specific" in rules[key] \\\n                    and test in rules[key]["specific"]:\n                items = rules[key]["specific"][test].items()\n            else:\n                items = {}.items()\n\n            for key_dep, ref_dep in items:\n\n                if key_dep == "_dimensions":\n                    # requires specific dimension(s) to have a certain size\n                    for dim in rules[key]["specific"][test]["_dimensions"]:\n                        # possible sizes\n                        dim_ref = \\\n                            rules[key]["specific"][test][\n                                "_dimensions"][dim]["value"]\n                        # current size\n                        dim_act = self._api[dim]\n                        # verbose error string for possible sizes\n                        dim_str = \\\n                            rules[key]["specific"][test][\n                                "_dimensions"][dim]["value_str"]\n                        # perform the check\n                        if dim_act not in dim_ref:\n                            current_error += \\\n                                (f"- Dimension {dim} is of size {dim_act} "\n                                 f"but must be {dim_str} if {key_sofar} "\n                                 f"is {test}\\n")\n                else:\n\n                    # convert name from NetCDF format to sofar format\n                    key_dep_sofar = key_dep.replace(".", "_").replace(":", "_")\n\n                    # check if dependency is contained in SOFA object\n                    if not hasattr(self, key_dep_sofar):\n                        current_error += (f"- {key_dep_sofar} must be given if"\n                                          f" {key_sofar} is {test}\\n")\n                        continue\n\n                    # check if dependency has the correct value\n                    if ref_dep is None:\n                        continue\n\n                    # convert name from NetCDF format to sofar format\n                    test_dep = getattr(self, key_dep_sofar)\n\n                    if not self._verify_value(\n                            test_dep, ref_dep, unit_aliases, key_dep_sofar):\n                        current_error += (\n                            f"- {key_dep_sofar} is {test_dep} but must be "\n                            f"{\', \'.join(ref_dep)} if {key_sofar} is {test}\\n")\n\n        # ---------------------------------------------------------------------\n        # 7. check write only restrictions: units shall be in lower-case\n        # (could be tested in _verify_unit but this way a more verbose error\n        # message can be generated)\n\n        if mode == "write":\n            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]\n            for key in keys:\n                unit = getattr(self, key)\n                if unit.lower() != unit:\n                    current_error += (f"- {key} is {unit} but must contain "\n                                      "only lower case letters when writing "\n                                      "SOFA files to disk.\\n")\n\n        if current_error:\n            error_msg += "Detected violations of the SOFA convention:\\n"\n            error_msg += current_error\n\n',
  '        error_msg += self._verify_rules(mode)\n        _, _, deprecations, _ = self._verification_rules()\n\n'), (SO, '    @staticmethod\n    def _verify_value(',
  '    def _verify_types(self, keys):\n        """Verify the data types."""\n        error_msg = ""\n\n        # 2. verify data type\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # check data type\n            value = getattr(self, key)\n\n            if dtype == "attribute":\n                if not isinstance(value, str):\n                    current_error += \\\n                        f"- {key} must be string but is {type(value)}\\n"\n\n            elif dtype == "double":\n                # All variables can be of type float or int, and are converted\n                # to float when writing.\n                # sofar does not force the user to pass data as numpy arrays.\n                # We thus check for allowed instances (int, float, numpy) and\n                # specifically for the type of numpy arrays.\n                if not isinstance(\n                        value, (int, float, np.ndarray, np.number)) or \\\n                        (isinstance(value, (np.ndarray, np.number)) and\n                         value.dtype.kind not in [\'i\', \'f\']):\n                    current_error += (f"- {key} must be int or float "\n                                      f"but is {type(value)}\\n")\n\n            elif dtype == "string":\n                # multiple checks needed because sofar does not force the user\n                # to initially pass data as numpy arrays\n                if not isinstance(value, (str, np.ndarray)):\n                    current_error += (f"- {key} must be string or numpy array "\n                                      f"but is {type(value)}\\n")\n\n                if isinstance(value, np.ndarray) and not (\n                        str(value.dtype).startswith(\'<U\') or\n                        str(value.dtype).startswith(\'<S\')):\n                    current_error += (f"- {key} must be U or S "\n                                      f"but is {type(value.dtype)}\\n")\n\n            else:\n                # Could only be tested by manipulating JSON convention files\n                # (Could take different data types in the future and convert to\n                # numpy double arrays.)\n                current_error += (\n                    f"- {key}: Error in convention. Type must be "\n                    f"double, string, or attribute but is {dtype}\\n")\n\n        if current_error:\n            error_msg += "Detected data of wrong type:\\n"\n            error_msg += current_error\n\n        return error_msg\n\n    def _verify_names(self, keys):\n        """Verify the names of entries."""\n        error_msg = ""\n\n        # 3. Verify names of entries\n\n        # check attributes without variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute" or \\\n                    key.count("_") == 0:\n                continue\n\n            if (key[:key.rindex("_")] not in self._convention and\n                    not key.startswith("GLOBAL_")):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += "Detected attributes with missing variables:\\n"\n            error_msg += current_error\n\n        # check number of underscores\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute":\n                continue\n\n            # the case above caught attributes with too many underscores\n            if key.count("_") == 0:\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected attribute names with too many or little underscores."\n                " Names must have the form Variable_Attribute, Data_Attribute "\n                "(one underscore), or Data_Variable_Attribute (two "\n                "underscores):\\n")\n            error_msg += current_error\n\n        # check numeric variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] == "attribute":\n                continue\n\n            if "_" in key.replace("Data_", ""):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected variable names with too many underscores."\n                "Underscores are only allowed for the variable Data:\\n")\n            error_msg += current_error\n\n        # check reserved names\n        current_error = ""\n        for key in keys:\n\n            # AES69 Sec. 4.7.1\n            if key.startswith("PRIVATE") or key.startswith("API"):\n                current_error += "- " + key + "\\n"\n            if (key.startswith("GLOBAL") and not key.startswith("GLOBAL_")) or\\\n                    (key.startswith("GLOBAL") and\n                     self._convention[key]["type"] != "attribute"):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected variable or attribute with reserved key words "\n                "PRIVATE, API, or GLOBAL:\\n")\n            error_msg += current_error\n\n        # check names of custom data (shall not have the same name as\n        # normative data contained in the convention AES69-2022 Sec. 5.3)\n        current_error = ""\n        if hasattr(self, "_custom"):\n\n            # get normative variables and attributes\n            normative = sf.Sofa(\n                self.GLOBAL_SOFAConventions,\n                version=self.GLOBAL_SOFAConventionsVersion)._convention.keys()\n            normative = [n.replace("GLOBAL_", "") for n in normative]\n\n            # compare against custom\n            for key in self._custom.keys():\n                if key.replace("GLOBAL_", "") in normative:\n                    current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected custom variable or attribute with reserved names. "\n                "Custom data shall not have the same name as data contained in"\n                " the convention itself:\\n")\n            error_msg += current_error\n\n        return error_msg\n\n    def _detect_dimensions(self):\n        """Detect the sizes of all dimensions from the current data."""\n        # get keys for checking the dimensions (all SOFA variables)\n        keys = [key for key in self.__dict__.keys()\n                if key in self._convention\n                and self._convention[key]["dimensions"] is not None]\n        if hasattr(self, "_custom"):\n            keys_custom = [key for key in self._custom.keys()\n                           if not key.startswith("_")\n                           and self._custom[key]["dimensions"] is not None]\n            keys += keys_custom\n\n        S = 0\n        for key in keys:\n\n            value = getattr(self, key)\n            dimensions = self._convention[key]["dimensions"]\n\n            # - dimensions are given as string, e.g., \'mRN\', or \'IC, MC\'\n            # - defined by lower case letters in `dimensions`\n            for idx, dim in enumerate(dimensions.split(", ")[0]):\n                if dim not in "ICS" and dim.islower():\n                    # numeric data\n                    self._api[dim.upper()] = \\\n                        _nd_newaxis(value, 4).shape[idx]\n                if dim == "S":\n                    # string data\n                    S = max(S, np.max(self._get_size_and_shape_of_string_var(\n                        value, key)[0]))\n\n        # add fixed sizes\n        self._api["C"] = 3\n        self._api["I"] = 1\n        self._api["S"] = S\n\n        return keys\n\n    def _verify_dimensions(self, keys):\n        """Verify the shapes of all variables."""\n        error_msg = ""\n\n        # 5. verify dimensions of data\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # get value and actual shape\n            try:\n                value = getattr(self, key).copy()\n            except AttributeError:\n                value = getattr(self, key)\n\n            if dtype in ["attribute", "string"]:\n                # string or string array like data\n                shape_act = self._get_size_and_shape_of_string_var(\n                    value, key)[1]\n            elif len(dimensions.split(",")[0]) > 1:\n                # multidimensional array like data\n                shape_act = _atleast_nd(value, 4).shape\n            else:\n                # scalar of single dimensional array like data\n                shape_act = (np.array(value).size, )\n\n            shape_matched = False\n            for dim in dimensions.split(", "):\n\n                # get the reference shape (\'S\' translates to a shape of 1,\n                # because the strings are stored in an array whose shape does\n                # not reflect the max. lengths of the actual strings inside it)\n                shape_ref = tuple(\n                    [self._api[d.upper()] if d != "S" else 1 for d in dim])\n\n                # get shape for comparison to correct length by cropping and\n                # appending singleton dimensions if required\n                shape_compare = shape_act\n                if all(n == 1 for n in shape_act[len(shape_ref):]):\n                    shape_compare = shape_act[:len(shape_ref)]\n                for _ in range(len(shape_ref) - len(shape_compare)):\n                    shape_compare += (1, )\n\n                # check if the shapes match and write to API\n                if shape_compare == shape_ref:\n                    shape_matched = True\n                    self._dimensions[key] = dim.upper()\n                    break\n\n            if not shape_matched:\n                # get possible dimensions in verbose form, i.e., "(M=2, C=3)""\n                dimensions_verbose = []\n                for dim in dimensions.upper().replace(" ", "").split(","):\n                    dimensions_verbose.append(\n                        f"({\', \'.join([f\'{d}={self._api[d]}\' for d in dim])})")\n\n                current_error += (\n                    f"- {key} has shape {shape_compare} but must "\n                    f"have {\', \'.join(dimensions_verbose)}\\n")\n\n        if current_error:\n            error_msg += "Detected variables of wrong shape:\\n"\n            error_msg += current_error\n\n        return error_msg\n\n    def _verify_rules(self, mode):\n        """Verify the content of the SOFA object."""\n        error_msg = ""\n\n        # 6. check restrictions on the content of SOFA files\n        rules, unit_aliases, _, _ = self._verification_rules()\n\n        current_error = ""\n        for key in rules.keys():\n\n            # convert to sofar format\n            key_sofar = key.replace(".", "_").replace(":", "_")\n\n            if not hasattr(self, key_sofar):\n                continue\n\n            # actual and possible values for the current key\n            test = getattr(self, key_sofar)\n            ref = rules[key]["value"]\n\n            # test if the value is valid\n            if not self._verify_value(test, ref, unit_aliases, key_sofar):\n                current_error += (f"- {key_sofar} is {test} "\n                                  f"but must be {\', \'.join(ref)}\\n")\n\n            # get lower case value for of test for verifying specific\n            # dependencies\n            if isinstance(test, str) and test.lower() in \\\n                    ["cartesian", "spherical", "spherical harmonics"]:\n                test = test.lower()\n\n            # check general dependencies\n            items = rules[key]["general"] if "general" in rules[key] else []\n\n            for key_dep in items:\n\n                # convert key to sofar format\n                key_dep = key_dep.replace(".", "_").replace(":", "_")\n\n                # check if dependency is contained in SOFA object hard to test,\n                # for mandatory fields (added by sofar by default).\n                if not hasattr(self, key_dep):\n                    current_error += (f"- {key_dep} must be given if "\n                                      f"{key_sofar} is in SOFA object\\n")\n                    continue\n\n            # check specific dependencies\n            if "specific" in rules[key] \\\n                    and test in rules[key]["specific"]:\n                items = rules[key]["specific"][test].items()\n            else:\n                items = {}.items()\n\n            for key_dep, ref_dep in items:\n\n                if key_dep == "_dimensions":\n                    # requires specific dimension(s) to have a certain size\n                    for dim in rules[key]["specific"][test]["_dimensions"]:\n                        # possible sizes\n                        dim_ref = \\\n                            rules[key]["specific"][test][\n                                "_dimensions"][dim]["value"]\n                        # current size\n                        dim_act = self._api[dim]\n                        # verbose error string for possible sizes\n                        dim_str = \\\n                            rules[key]["specific"][test][\n                                "_dimensions"][dim]["value_str"]\n                        # perform the check\n                        if dim_act not in dim_ref:\n                            current_error += \\\n                                (f"- Dimension {dim} is of size {dim_act} "\n                                 f"but must be {dim_str} if {key_sofar} "\n                                 f"is {test}\\n")\n                else:\n\n                    # convert name from NetCDF format to sofar format\n                    key_dep_sofar = key_dep.replace(".", "_").replace(":", "_")\n\n                    # check if dependency is contained in SOFA object\n                    if not hasattr(self, key_dep_sofar):\n                        current_error += (f"- {key_dep_sofar} must be given if"\n                                          f" {key_sofar} is {test}\\n")\n                        continue\n\n                    # check if dependency has the correct value\n                    if ref_dep is None:\n                        continue\n\n                    # convert name from NetCDF format to sofar format\n                    test_dep = getattr(self, key_dep_sofar)\n\n                    if not self._verify_value(\n                            test_dep, ref_dep, unit_aliases, key_dep_sofar):\n                        current_error += (\n                            f"- {key_dep_sofar} is {test_dep} but must be "\n                            f"{\', \'.join(ref_dep)} if {key_sofar} is {test}\\n")\n\n        # ---------------------------------------------------------------------\n        # 7. check write only restrictions: units shall be in lower-case\n        # (could be tested in _verify_unit but this way a more verbose error\n        # message can be generated)\n\n        if mode == "write":\n            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]\n            for key in keys:\n                unit = getattr(self, key)\n                if unit.lower() != unit:\n                    current_error += (f"- {key} is {unit} but must contain "\n                                      "only lower case letters when writing "\n                                      "SOFA files to disk.\\n")\n\n        if current_error:\n            error_msg += "Detected violations of the SOFA convention:\\n"\n            error_msg += current_error\n\n        return error_msg\n\n    @staticmethod\n    def _verify_value('))
r("iz-entries-property", (SO, '            self._reset_convention()\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n',
  '            self._reset_convention()\n\n        # list of all attributes\n        keys = self._entries\n\n'), (SO, '\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n',
  '\n        # list of all attributes\n        keys = self._entries\n\n'), (SO, '\n        # current data\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n',
  '\n        # current data\n        keys = self._entries\n\n'), (SO, '        """\n        delattr(self, name)\n\n',
  '        """\n        delattr(self, name)\n\n    @property\n    def _entries(self):\n        """Names of all public entries."""\n        return [key for key in self.__dict__ if not key.startswith("_")]\n\n'), (SO, '        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n',
  '        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = self._entries\n\n'), (W, '    # remove fields from initial Sofa object that were not contained in NetCDF\n    # file (initial Sofa object contained mandatory and optional fields)\n    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]\n    for attr in attrs:\n',
  '    # remove fields from initial Sofa object that were not contained in NetCDF\n    # file (initial Sofa object contained mandatory and optional fields)\n    attrs = sofa._entries\n    for attr in attrs:\n'), (W, '\n    # list of all attribute names\n    all_keys = [key for key in sofa.__dict__.keys() if not key.startswith("_")]\n\n',
  '\n    # list of all attribute names\n    all_keys = sofa._entries\n\n'), (UT, '    # get and filter keys\n    # (\'_*\' are SOFA object private variables, \'__\' are netCDF attributes)\n    keys_a = [k for k in sofa_a.__dict__.keys() if not k.startswith("_")]\n    keys_b = [k for k in sofa_b.__dict__.keys() if not k.startswith("_")]\n\n',
  "    # get and filter keys\n    # ('_*' are SOFA object private variables, '__' are netCDF attributes)\n    keys_a = sofa_a._entries\n    keys_b = sofa_b._entries\n\n"))
r("iz-name-helper", (SO, 'from copy import deepcopy\nimport sofar as sf\nfrom .utils import (_nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n',
  'from copy import deepcopy\nimport sofar as sf\nfrom .utils import (_to_sofar, _nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n'), (SO, '        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = source.replace(".", \'_\').replace(":", "_")\n            target_sofar = move["target"].replace(".", \'_\').replace(":", "_")\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n',
  '        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = _to_sofar(source)\n            target_sofar = _to_sofar(move["target"])\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n'), (SO, '        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = target.replace(".", \'_\').replace(":", "_")\n            # nothing to delete if optional data are not contained\n',
  '        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = _to_sofar(target)\n            # nothing to delete if optional data are not contained\n'), (SO, '\n            # convert to sofar format\n            key_sofar = key.replace(".", "_").replace(":", "_")\n\n',
  '\n            # convert to sofar format\n            key_sofar = _to_sofar(key)\n\n'), (SO, '\n                # convert key to sofar format\n                key_dep = key_dep.replace(".", "_").replace(":", "_")\n\n',
  '\n                # convert key to sofar format\n                key_dep = _to_sofar(key_dep)\n\n'), (SO, '\n                    # convert name from NetCDF format to sofar format\n                    key_dep_sofar = key_dep.replace(".", "_").replace(":", "_")\n\n',
  '\n                    # convert name from NetCDF format to sofar format\n                    key_dep_sofar = _to_sofar(key_dep)\n\n'), (UT, '\n\ndef _atleast_nd(array, ndim):\n',
  '\n\ndef _to_sofar(name):\n    """Convert the name of an entry from NetCDF to sofar format."""\n    return name.replace(".", "_").replace(":", "_")\n\n\ndef _atleast_nd(array, ndim):\n'))
r("iz-unlocked", (SO, 'import platform\nimport numpy as np\nimport warnings\nfrom packaging.version import parse\nfrom copy import deepcopy\nimport sofar as sf\nfrom .utils import (_nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n\n\nclass Sofa():\n    """Create a new SOFA object.\n\n    Parameters\n    ----------\n    convention : str\n        The name of the convention from which the SOFA file is created. See\n        :py:func:`~sofar.list_conventions`.\n    mandatory : bool, optional\n        If ``True``, only the mandatory data of the convention will be\n        returned. The default is ``False``, which returns mandatory and\n        optional data.\n    version : str, optional\n        The version of the convention as a string, e.g., ``\' 2.0\'``. The\n        default is ``\'latest\'``. Also see :py:func:`~sofar.list_conventions`.\n    verify : bool, optional\n        Verify the SOFA object by calling :py:func:`~Sofa.verify`. This helps\n        to find potential errors in the default values and is thus recommended\n        If creating a file does not work, try to call `Sofa` with\n        ``verify=False``. The default ``\'auto\'`` defaults to ``True`` for\n        stable conventions with versions of 1.0 or higher and to ``False``\n        otherwise.\n\n    Returns\n    -------\n    sofa : Sofa\n        A SOFA object filled with the default values of the convention.\n\n    Examples\n    --------\n    Create a new SOFA object with default values\n\n    .. code-block:: python\n\n        import sofar as sf\n\n        # create SOFA object\n        sofa = sf.Sofa("SimpleFreeFieldHRIR")\n\n    Add data as a list\n\n    .. code-block:: python\n\n        sofa.Data_IR = [1, 1]\n\n    Data can be entered as numbers, numpy arrays or lists. Note the following\n\n    1. Lists are converted to numpy arrays with at least two dimensions, i.e.,\n       ``sofa.Data_IR`` is converted to a numpy array of shape (1, 2)\n    2. Missing dimensions are appended when writing the SOFA object to disk,\n       i.e., ``sofa.Data_IR`` is written as an array of shape (1, 2, 1) because\n       the SOFA standard AES69 defines it as a three dimensional array\n       with the dimensions (`M: measurements`, `R: receivers`, `N: samples`)\n    3. When reading data from a SOFA file, array data is always returned as\n       numpy arrays and singleton trailing dimensions are discarded (numpy\n       default). I.e., ``sofa.Data_IR`` will again be an array of shape (1, 2)\n       after writing and reading to and from disk.\n    4. One dimensional arrays with only one element will be converted to scalar\n       values. E.g. ``sofa.Data_SamplingRate`` is stored as an array of shape\n       (1, ) inside SOFA files (according to the SOFA standard AES69) but\n       will be a scalar inside SOFA objects after reading from disk.\n\n\n    For more examples refer to the\n    `sofar and SOFA <https://pyfar-gallery.readthedocs.io/en/latest/gallery/interactive/sofar_introduction.html>`__\n    notebook in the pyfar example gallery.\n    """\n\n    # these have to be set here, because they are used in __setattr__ and\n    # Python checks if they exist upon class creation\n\n    # don\'t allow adding attributes and deleting/writing read only attributes\n    _protected = False\n    # list of read only attributes (filled upon init)\n    _read_only_attr = []\n\n    def __init__(self, convention, mandatory=False, version="latest",\n                 verify=\'auto\'):\n        """See class docstring."""\n\n        # get convention\n        if convention is not None:\n            self._convention = self._load_convention(convention, version)\n\n            # update read only attributes\n            self._update_read_only_attr()\n\n            # add attributes with default values\n            self._convention_to_sofa(mandatory)\n\n            # set default for verify\n            version = \\\n                self._convention[\'GLOBAL_SOFAConventionsVersion\'][\'default\']\n            if verify == \'auto\':\n                verify = True if parse(version) >= parse(\'1.0\') else False\n\n            # add and update the API\n            # (mandatory=False can not be verified because some conventions\n            # have default values that have optional variables as dependencies)\n            if verify and not mandatory:\n                self.verify(mode="read")\n            # warning for preliminary conventions if verification is bypassed\n            elif parse(version) < parse(\'1.0\'):\n                warnings.warn(UserWarning((\n                    f"Detected preliminary conventions version {version}. "\n                    "Upgrade data to version >= 1.0 if possible. Preliminary "\n                    "conventions might change in the future, which could "\n                    "invalidate data that was written before the changes.")),\n                    stacklevel=2)\n\n            self.protected = True\n        else:\n            verify = False\n            self._convention = {}\n\n    def __setattr__(self, name: str, value):\n        """\n        Set attribute in Sofa object.\n\n        Overloads the default ``__setattr__`` method to block setting\n        read-only data.\n        """\n        # don\'t allow new attributes to be added outside the class\n        if self.protected and not hasattr(self, name):\n            raise TypeError(f"{name} is an invalid attribute")\n\n        # don\'t allow setting read only attributes\n        if name in self._read_only_attr and self.protected:\n            raise TypeError((\n                f"{name} is a read only attribute. Iy you know what you are "\n                "doing, you can set Sofa.protected = False to write read "\n                "only data (e.g., to repair corrupted SOFA data)."))\n\n        # convert to numpy array or scalar\n        if not isinstance(value, (str, dict, np.ndarray)) \\\n                and name != "protected":\n            value = np.atleast_2d(value)\n            if value.size == 1:\n                value = value.flatten()[0]\n\n        super.__setattr__(self, name, value)\n\n    def __delattr__(self, name: str):\n        """\n        Delete attribute from Sofa object.\n\n        Overloads the default ``__delattr__`` method to block deleting\n        mandatory data.\n        """\n        # can\'t delete non existing attributes\n        if not hasattr(self, name):\n            raise TypeError(f"{name} is not an attribute")\n        # delete anything if not frozen, delete non mandatory\n        if not self.protected or \\\n                not self._mandatory(self._convention[name]["flags"]):\n            super().__delattr__(name)\n\n            # check if custom field as to be deleted\n            if hasattr(self, "_custom"):\n                if name in self._custom:\n                    self._custom.pop(name)\n                    self._convention.pop(name, None)\n        else:\n            raise TypeError(\n                f"{name} is a mandatory attribute that can not be deleted")\n\n    def __repr__(self):\n        """String representation of Sofa object."""\n        return (f"sofar.SOFA object: {self.GLOBAL_SOFAConventions} "\n                f"{self.GLOBAL_SOFAConventionsVersion}")\n\n    @property\n    def list_dimensions(self):\n        """\n        Print the dimensions of the SOFA object.\n\n        See :py:func:`~Sofa.inspect` to see the shapes of the data inside the\n        SOFA object and :py:func:`~Sofa.get_dimension` to get the size/value\n        of a specific dimensions as integer number.\n\n        The SOFA file standard defines the following dimensions that are used\n        to define the shape of the data entries:\n\n        M\n            number of measurements\n        N\n            number of samples, frequencies, SOS coefficients\n            (depending on self.GLOBAL_DataType)\n        R\n            Number of receivers or SH coefficients\n            (depending on ReceiverPosition_Type)\n        E\n            Number of emitters or SH coefficients\n            (depending on EmitterPosition_Type)\n        S\n            Maximum length of a string in a string array\n        C\n            Size of the coordinate dimension. This is always three.\n        I\n            Single dimension. This is always one.\n\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        # get verbose description for dimension N\n        if self.GLOBAL_DataType.startswith("FIR"):\n            N_verbose = "samples"\n        elif self.GLOBAL_DataType.startswith("TF"):\n            N_verbose = "frequencies"\n        elif self.GLOBAL_DataType.startswith("SOS"):\n            N_verbose = "SOS coefficients"\n        else:\n            N_verbose = "data points"\n\n        # get verbose description for dimensions R and E\n        R_verbose = "receiver spherical harmonics coefficients" if \\\n            \'harmonic\' in self.ReceiverPosition_Type else "receiver"\n        E_verbose = "emitter spherical harmonics coefficients" if \\\n            \'harmonic\' in self.EmitterPosition_Type else "emitter"\n\n        dimensions = {\n            "M": "measurements",\n            "N": N_verbose,\n            "R": R_verbose,\n            "E": E_verbose,\n            "S": "maximum string length",\n            "C": "coordinate dimensions, fixed",\n            "I": "single dimension, fixed"}\n\n        info_str = ""\n        for key, value in self._api.items():\n            dim_info = dimensions[key] if key in dimensions \\\n                else "custom dimension"\n\n            info_str += f"{key} = {value} {dim_info}"\n\n            if dim_info != "custom ":\n                for key2, value2 in self._convention.items():\n                    dim = value2["dimensions"]\n                    if dim is not None and key.lower() in dim:\n                        info_str += \\\n                            f" (set by {key2} of dimension {dim.upper()})"\n                        break\n\n            info_str += "\\n"\n\n        print(info_str)\n\n    def get_dimension(self, dimension):\n        """\n        Get size of a SOFA dimension.\n\n        SOFA dimensions specify the shape of the data contained in a SOFA\n        object. For a list of all dimensions see :py:func:`~list_dimensions`.\n\n        Parameters\n        ----------\n        dimension : str\n            The dimension as a string, e.g., ``\'N\'``.\n\n        Returns\n        -------\n        size : int\n            the size of the queried dimension.\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension not in self._api:\n            raise ValueError((\n                f"{dimension} is not a valid dimension. "\n                "See Sofa.list_dimensions for a list of valid dimensions."))\n\n        return self._api[dimension]\n\n    def _update_dimensions(self):\n        """\n        Call verify and raise an error if the dimensions could not be updated.\n\n        used in Sofa.list_dimensions and Sofa.get_dimension\n        """\n\n        issues = self.verify(issue_handling="return")\n        if issues is not None and ("data of wrong type" in issues or\n                                   "variables of wrong shape" in issues or\n                                   not hasattr(self, "_api")):\n            raise ValueError(("Dimensions can not be shown because variables "\n                              "of wrong type or shape were detected. "\n                              "Call Sofa.verify() for more information."))\n\n    def info(self, info="all"):\n        """\n        Print information about the convention of a SOFA object.\n\n        Prints the variable type (attribute, double, string), shape, flags\n        (mandatory, read only) and comment (if any) for each or selected\n        entries.\n\n        Parameters\n        ----------\n        info : str\n            Specifies the kind of information that is printed:\n\n            ``\'all\'`` ``\'mandatory\'`` ``\'optional\'`` ``\'read only\'`` ``\'data\'``\n                Print the name, type, shape, and flags and comment for all or\n                selected entries of the SOFA object. ``\'data\'`` does not show\n                entries of type attribute.\n            key\n                If key is the name of an object attribute, all information for\n                attribute will be printed.\n        """\n\n        # warn for upcoming deprecation\n        warnings.warn((\n            \'Sofa.info() will be deprecated in sofar 1.3.0 The conventions are\'\n            \' now documented at \'\n            \'https://sofar.readthedocs.io/en/stable/resources/conventions.html\'),\n            UserWarning, stacklevel=1)\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        if not hasattr(self, "_convention"):\n            self._reset_convention()\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        if info in ["all", "mandatory", "optional", "read only", "data"]:\n\n            info_str += f"showing {info} entries : type (shape), flags\\n\\n"\n\n            for key in keys:\n\n                # check if field should be skipped\n                flags = self._convention[key]["flags"]\n                if (not self._mandatory(flags) and info == "mandatory") \\\n                        or \\\n                        (self._mandatory(flags) and info == "optional") \\\n                        or \\\n                        (not self._read_only(flags) and info == "read only") \\\n                        or \\\n                        (self._convention[key][\'type\'] == "attribute" and\n                         info == "data"):\n                    continue\n\n                info_str += f"{key} : {self._convention[key][\'type\']}"\n\n                if self._convention[key][\'dimensions\']:\n                    info_str += \\\n                        f" ({self._convention[key][\'dimensions\'].upper()})"\n\n                if self._mandatory(flags):\n                    info_str += ", mandatory"\n                else:\n                    info_str += ", optional"\n                if self._read_only(flags):\n                    info_str += ", read only"\n\n                if self._convention[key][\'comment\']:\n                    info_str += f"\\n    {self._convention[key][\'comment\']}\\n"\n                else:\n                    info_str += "\\n"\n\n        elif info in keys:\n\n            for key in [k for k in keys if info in k]:\n                comment = str(self._convention[key][\'comment\'])\n\n                info_str += (\n                    f"{key}\\n"\n                    f"    type: {self._convention[key][\'type\']}\\n"\n                    f"    mandatory: "\n                    f"{self._mandatory(self._convention[key][\'flags\'])}\\n"\n                    f"    read only: "\n                    f"{self._read_only(self._convention[key][\'flags\'])}\\n"\n                    f"    default: {self._convention[key][\'default\']}\\n"\n                    f"    shape: "\n                    f"{str(self._convention[key][\'dimensions\']).upper()}\\n"\n                    f"    comment: {comment}\\n")\n        else:\n            raise ValueError(f"info=\'{info}\' is invalid")\n\n        print(info_str)\n\n    def inspect(self, file=None, issue_handling="print"):\n        """\n        Get information about data inside a SOFA object.\n\n        Prints the values of all attributes and variables with six or less\n        entries and the shapes and type of all numeric and string variables.\n        When printing the values of arrays, single dimensions are discarded for\n        easy of display, i.e., an array of shape (1, 3, 2) will be displayed as\n        an array of shape (3, 2).\n\n        Parameters\n        ----------\n        file : str\n            Full path of a file under which the information is to be stored in\n            plain text. The default ``None`` only print the information to the\n            console.\n        issue_handling : str, optional\n            Defines how issues detected during verification of the SOFA object\n            are handled (see :py:func:`~sofar.sofar.Sofa.verify`)\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n            ``\'ignore\'``\n                Issues are ignored, i.e., not raised, printed, or returned.\n\n            The default is ``\'print\'``.\n        """\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        self.verify(issue_handling=issue_handling)\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        for key in keys:\n\n            info_str += key + " : "\n            value = getattr(self, key)\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n    def add_missing(self, mandatory=True, optional=True, verbose=True):\n        """\n        Add missing data with default values.\n\n        Data might be missing in SOFA objects if the creator did not include it\n        or if a new data was suggested for a newer version of a SOFA\n        convention. Use this function to add the data with its default values.\n\n        mandatory : Bool\n            Add missing mandatory data. The default is ``True``.\n        optional : Bool\n            Add missing optional data. The default is ``True``.\n        verbose : Bool\n            Print the information about added data to the console. The default\n            is ``True``.\n        """\n\n        # initialize\n        self._reset_convention()\n        added = "Added the following missing data with their default values:\\n"\n\n        # current data\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        self.protected = False\n\n        # loop data in convention\n        for key in self._convention.keys():\n            is_mandatory = self._mandatory(self._convention[key]["flags"])\n            add_data = (is_mandatory and mandatory) or \\\n                (not is_mandatory and optional)\n            # add with default\n            if key not in keys and add_data:\n                setattr(self, key, self._convention[key]["default"])\n                added += f"- {key} "\n                added += f"({\'mandatory\' if is_mandatory else \'optional\'})\\n"\n\n        self.protected = True\n\n        if verbose:\n            if "-" in added:\n                print(added)\n            else:\n                print("All mandatory data contained.")\n\n    def add_variable(self, name, value, dtype, dimensions):\n        """\n        Add custom variable to the SOFA object, i.e., numeric or string arrays.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new variable.\n        value : any\n            value to be added (see `dtype` for restrictions).\n        dtype : str\n            Type of the entry to be added in netCDF style:\n\n            ``\'double\'``\n                Use this to store numeric data that can be provided as number\n                list or numpy array.\n            ``\'string\'``\n                Use this to store string variables as numpy string arrays of\n                type ``\'U\'`` or ``\'S\'``.\n\n        dimensions : str\n            The shape of the new entry as a string. See\n            :py:func:`~Sofa.list_dimensions`.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add numeric data\n            sofa.add_variable("Temperature", 25.1, "double", "MI")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_entry(\n                "GLOBAL_DateMeasured", "8.08.2021", "attribute", None)\n            sofa.add_entry(\n                "Temperature_Units", "degree Celsius", "attribute", None)\n\n            # add a string data\n            sofa.add_variable(\n                "Comment", "Measured with wind screen", "string", "MS")\n        """\n\n        self._add_entry(name, value, dtype, dimensions)\n\n    def add_attribute(self, name, value):\n        """\n        Add custom attribute to the SOFA object.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new attribute.\n        value : str\n            value to be added.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_attribute("GLOBAL_DateMeasured", "8.08.2021")\n            sofa.add_attribute("Data_Real_Units", "Pascal")\n\n        """\n\n        self._add_entry(name, value, \'attribute\', None)\n\n    def delete(self, name):\n        """\n        Delete variable or attribute from SOFA object.\n\n        Note that mandatory data can not be deleted. Check the\n        `sofar documentation\n        <https://sofar.readthedocs.io/en/stable/resources/conventions.html>`_\n        for a complete list of optional variables and attributes.\n\n        Parameters\n        ----------\n        name : str\n            Name of the variable or attribute to be deleted\n        """\n        delattr(self, name)\n\n    @property\n    def protected(self):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        return self._protected\n\n    @protected.setter\n    def protected(self, value: bool):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        if not isinstance(value, bool):\n            raise ValueError("Sofa.protected can only be True or False")\n        self._protected = value\n\n    def _add_entry(self, name, value, dtype, dimensions):\n        """\n        Add custom data to a SOFA object. See add_variable and add_attribute\n        for more information.\n        """\n\n        # check input\n        if hasattr(self, name):\n            raise ValueError(f"Entry {name} already exists")\n        if dtype not in ["attribute", "double", "string"]:\n            raise ValueError(\n                f"dtype is {dtype} but must be attribute, double, or string")\n        if "_" in name and dtype != "attribute":\n            raise ValueError(("underscores \'_\' in the name are only "\n                              "allowed for attributes"))\n        if dtype == "attribute":\n            if name.count("_") != 1 or \\\n                    (name.startswith("Data_") and (name.count("_") == 0 or\n                                                   name.count("_") > 2)):\n                raise ValueError((f"The name of {name} must have the "\n                                  "form VariableName_AttributeName"))\n            if not name.startswith("GLOBAL_") and \\\n                    name[:name.rindex("_")] not in self._convention:\n                raise ValueError((f"Adding Attribute {name} requires "\n                                  f"variable {name[:name.rindex(\'_\')]}"))\n        if dtype != "attribute" and ("." in name or "/" in name):\n            raise ValueError(("points \'.\' and slashes \'/\' are only allowed in "\n                              "the names of attributes"))\n        if dimensions is None and dtype != "attribute":\n            raise ValueError(("dimensions must be provided for entries of "\n                              "dtype double and string"))\n        if dimensions is not None:\n            dimensions = dimensions.upper()\n            for dimension in dimensions:\n                if dimension not in "ERMNCIS":\n                    warnings.warn(\n                        f"Added custom dimension {dimensions} to SOFA object",\n                        stacklevel=2)\n\n        # add attribute to class\n        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n\n    def _add_custom_api_entry(self, key, value, flags, dimensions, dtype):\n        """\n        Add custom entry to the sofa._convention and permanently save it in\n        sofa._custom.\n\n        Parameters\n        ----------\n        key : str\n            name of the entry\n        value: any\n            Value of the entry\n        flags, dimensions, dtype : any\n            as in sofa._convention\n        dimensions : string\n            Dimensions in case of numeric or string array\n        dtype : string\n            double, string, or attribute\n        """\n        # create custom API if it not exists\n        self.protected = False\n\n        # add attribute to object (done first, because it fails for values\n        # that can not be converted)\n        try:\n            setattr(self, key, value)\n        except Exception:\n            self.protected = True\n            raise\n\n        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()\n                          for d in dimensions]\n            dimensions = "".join(dimensions)\n\n        # add user entry to custom API, if not contained in the convention\n        if not hasattr(self, "_convention") or key not in self._convention:\n            if not hasattr(self, "_custom"):\n                self._custom = {}\n\n            self._custom[key] = {\n                "flags": flags,\n                "dimensions": dimensions,\n                "type": dtype,\n                "default": None,\n                "comment": ""}\n            self._convention[key] = self._custom[key]\n\n        self.protected = True\n\n    def upgrade_convention(self, target=None, verify=\'auto\'):\n        """\n        Upgrade Sofa data to newer conventions.\n\n        Calling this with the default arguments returns a list of possible\n        conventions to which the data will be upgraded. If the data is up to\n        date the list will be empty.\n\n        Parameters\n        ----------\n        target : str, optional\n            The convention and version to which the data should be upgraded as\n            a string. For example ``\'SimpleFreeFieldHRIR_1.0\'`` would upgrade\n            the data to the SOFA-Convention `SimpleFreeFieldHRIR` version 1.0.\n            The default is ``None`` which returns a list of possible\n            conventions to which the data can be updated.\n        verify : bool, optional\n            Flag to specify if the data should be verified after the upgrade\n            using :py:func:`~Sofa.verify`. The default ``\'auto\'`` defaults to\n            ``True`` for stable conventions with versions of 1.0 or higher and\n            to ``False`` otherwise.\n\n        Returns\n        -------\n        target : list of strings\n            List with available conventions to which the data can be updated.\n            If the data is up to data, the list will be empty. `target` is only\n            returned if `target` is ``None``.\n        """\n\n        # check input ---------------------------------------------------------\n        self._reset_convention()\n\n        # get deprecations and information about Sofa object\n        _, _, deprecations, upgrade = self._verification_rules()\n        convention_current = self.GLOBAL_SOFAConventions\n        version_current = self.GLOBAL_SOFAConventionsVersion\n        sofa_version_current = self.GLOBAL_Version\n\n        # check if convention is deprecated -----------------------------------\n        is_deprecated = False\n\n        if convention_current in deprecations["GLOBAL:SOFAConventions"]:\n            is_deprecated = True\n        elif convention_current in upgrade:\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    is_deprecated = True\n                    break\n\n        # check for upgrades --------------------------------------------------\n        if is_deprecated:\n            # check if upgrade is available for this convention\n            if convention_current not in upgrade:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n\n            # check if upgrade is available for this version\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    targets = from_to[1]\n\n                    if target in targets:\n                        target_id = from_to[2]\n                    else:\n                        if target is not None:\n                            print(f"{target} is invalid.")\n\n                        upgrades = (\n                            f"{convention_current} v{version_current} "\n                            "can be upgraded to:\\n")\n                        for t in targets:\n                            t = t.split("_")\n                            upgrades += f"- {t[0]} v{t[1]}\\n"\n                        print(upgrades)\n                        return targets\n                    break\n            else:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n        else:\n            print((f"Convention {convention_current} v{version_current} "\n                   "is up to date"))\n            return\n\n        # get information to upgrade ------------------------------------------\n        upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]\n        convention_target, version_target = target.split("_")\n\n        # upgrade -------------------------------------------------------------\n        self._convention = self._load_convention(\n            convention_target, version_target)\n        sofa_version_target = self._convention["GLOBAL_Version"]["default"]\n\n        print((f"Upgrading {convention_current} v{version_current} to "\n               f"{convention_target} v{version_target} (SOFA version "\n               f"{sofa_version_current} to {sofa_version_target})"))\n\n        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n\n        # display general message\n        if upgrade["message"] is not None:\n            print(upgrade["message"])\n\n        # set default for verify\n        if verify == \'auto\':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse(\'1.0\') else False\n        if verify:\n            self.verify()\n\n    def _apply_upgrade(self, upgrade):\n        """\n        Apply an upgrade rule, used in Sofa.upgrade_convention after the target\n        convention was loaded.\n        """\n        # upgrade convention\n        keys = ["GLOBAL_SOFAConventions",\n                "GLOBAL_SOFAConventionsVersion",\n                "GLOBAL_Version",\n                "GLOBAL_DataType"]\n\n        for key in keys:\n            setattr(self, key, self._convention[key]["default"])\n\n        # move data\n        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = source.replace(".", \'_\').replace(":", "_")\n            target_sofar = move["target"].replace(".", \'_\').replace(":", "_")\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n            # nothing to move if optional data are not contained\n            if not hasattr(self, source_sofar):\n                continue\n            # get data\n            data = getattr(self, source_sofar)\n            # delete from Sofa object\n            delattr(self, source_sofar)\n            # Check move axis\n            moveaxis = upgrade["move"][source]["moveaxis"]\n            if moveaxis is not None:\n                # add dimensions if required\n                # (sofar discards trailing singular dimensions)\n                while data.ndim < np.max(moveaxis) + 1:\n                    data = data[..., None]\n                # move the axis\n                data = np.moveaxis(data, moveaxis[0], moveaxis[1])\n                move_info += f" Moving axis {moveaxis[0]} to {moveaxis[1]}."\n            # Check deprecated dimensions\n            deprecated_dimensions = \\\n                upgrade["move"][source]["deprecated_dimensions"]\n            if deprecated_dimensions is not None:\n                move_info += (\n                    f" WARNING: Dimensions {\', \'.join(deprecated_dimensions)} "\n                    "are now deprecated.")\n            # add data\n            setattr(self, target_sofar, data)\n            # print info\n            print(move_info)\n\n        if not upgrade["move"]:\n            print("- No data to move")\n\n        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = target.replace(".", \'_\').replace(":", "_")\n            # nothing to delete if optional data are not contained\n            if not hasattr(self, target_sofar):\n                continue\n            delattr(self, target_sofar)\n            print(f"- Deleting {target_sofar}.")\n\n        if not upgrade["remove"]:\n            print("- No data to remove")\n\n        # check for missing mandatory data\n        self.add_missing(True, False)\n\n    def verify(self, issue_handling="raise", mode="write"):\n        """\n        Verify a SOFA object against the SOFA standard.\n\n        This function updates the API, and checks the following\n\n        - Are all mandatory data contained? If `issue_handling` is ``"raise"``\n          missing mandatory data raises an error. Otherwise mandatory data are\n          added with their default value and a warning is given.\n        - Are the names of variables and attributes in accordance to the SOFA\n          standard?\n        - Are the data types in accordance with the SOFA standard?\n        - Are the dimensions of the variables consistent and in accordance\n          to the SOFA standard?\n        - Are the values of attributes consistent and in accordance to the\n          SOFA standard?\n\n        A detailed set of validation rules can be found at\n        https://github.com/pyfar/sofar/tree/main/sofar/verification_rules\n\n        .. note::\n            :py:func:`~verify` is automatically called when you create a new\n            SOFA object, read a SOFA file from disk, and write a SOFA file to\n            disk (using the default parameters).\n\n        The API of a SOFA object consists of four parts, that are stored\n        dictionaries in private attributes. This is required for writing data\n        with :py:func:`~sofa.write_sofa` and should usually not be manipulated\n        outside of :py:func:`~verify`\n\n        self._convention\n            The SOFA convention with default values, variable dimensions, flags\n            and comments. These data are read from the official SOFA\n            conventions contained in the SOFA Matlab/Octave API.\n        self._dimensions\n            The detected dimensions of the data inside the SOFA object.\n        self._api\n            The size of the dimensions (see py:func:`~list_dimensions`). This\n            specifies the dimensions of the data inside the SOFA object.\n        self._custom\n            Stores information of custom variables that are not defined by the\n            convention. The format is the same as in `self._convention`.\n\n        Parameters\n        ----------\n        issue_handling : str, optional\n            Defines how detected issues are handled\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n\n            The default is ``\'raise\'``.\n        mode : str, optional\n            The SOFA standard is more strict for writing data than for reading\n            data.\n\n            ``\'write\'``\n                All units (e.g. \'meter\') must be written be lower case.\n            ``\'read\'``\n                Units can contain upper case letters (e.g. \'Meter\')\n\n            The default is ``\'write\'``\n\n        Returns\n        -------\n        issues : str, None\n            Detected issues as a string. None if no issues were detected. Note\n            that this is only returned if ``issue_handling=\'return\'`` (see\n            above)\n\n        """\n        # NOTE: This function collects warnings and errors and tries to output\n        # them in a block. This makes the code slightly more complicated but\n        # is more convenient for the user and with respect to a potential\n        # future web based tool for verifying SOFA files.\n\n        # initialize warning and error messages\n        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg = "\\nWARNINGS\\n--------\\n"\n\n        # ---------------------------------------------------------------------\n        # 0. update the convention\n        self._reset_convention()\n\n        # initialize required API fields (forget dimensions of former data)\n        self.protected = False\n        self._dimensions = {}\n        self._api = {}\n        self.protected = True\n\n        # ---------------------------------------------------------------------\n        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    self.protected = False\n                    setattr(self, key, self._convention[key]["default"])\n                    self.protected = True\n\n',
  'import platform\nfrom contextlib import contextmanager\nimport numpy as np\nimport warnings\nfrom packaging.version import parse\nfrom copy import deepcopy\nimport sofar as sf\nfrom .utils import (_nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n\n\nclass Sofa():\n    """Create a new SOFA object.\n\n    Parameters\n    ----------\n    convention : str\n        The name of the convention from which the SOFA file is created. See\n        :py:func:`~sofar.list_conventions`.\n    mandatory : bool, optional\n        If ``True``, only the mandatory data of the convention will be\n        returned. The default is ``False``, which returns mandatory and\n        optional data.\n    version : str, optional\n        The version of the convention as a string, e.g., ``\' 2.0\'``. The\n        default is ``\'latest\'``. Also see :py:func:`~sofar.list_conventions`.\n    verify : bool, optional\n        Verify the SOFA object by calling :py:func:`~Sofa.verify`. This helps\n        to find potential errors in the default values and is thus recommended\n        If creating a file does not work, try to call `Sofa` with\n        ``verify=False``. The default ``\'auto\'`` defaults to ``True`` for\n        stable conventions with versions of 1.0 or higher and to ``False``\n        otherwise.\n\n    Returns\n    -------\n    sofa : Sofa\n        A SOFA object filled with the default values of the convention.\n\n    Examples\n    --------\n    Create a new SOFA object with default values\n\n    .. code-block:: python\n\n        import sofar as sf\n\n        # create SOFA object\n        sofa = sf.Sofa("SimpleFreeFieldHRIR")\n\n    Add data as a list\n\n    .. code-block:: python\n\n        sofa.Data_IR = [1, 1]\n\n    Data can be entered as numbers, numpy arrays or lists. Note the following\n\n    1. Lists are converted to numpy arrays with at least two dimensions, i.e.,\n       ``sofa.Data_IR`` is converted to a numpy array of shape (1, 2)\n    2. Missing dimensions are appended when writing the SOFA object to disk,\n       i.e., ``sofa.Data_IR`` is written as an array of shape (1, 2, 1) because\n       the SOFA standard AES69 defines it as a three dimensional array\n       with the dimensions (`M: measurements`, `R: receivers`, `N: samples`)\n    3. When reading data from a SOFA file, array data is always returned as\n       numpy arrays and singleton trailing dimensions are discarded (numpy\n       default). I.e., ``sofa.Data_IR`` will again be an array of shape (1, 2)\n       after writing and reading to and from disk.\n    4. One dimensional arrays with only one element will be converted to scalar\n       values. E.g. ``sofa.Data_SamplingRate`` is stored as an array of shape\n       (1, ) inside SOFA files (according to the SOFA standard AES69) but\n       will be a scalar inside SOFA objects after reading from disk.\n\n\n    For more examples refer to the\n    `sofar and SOFA <https://pyfar-gallery.readthedocs.io/en/latest/gallery/interactive/sofar_introduction.html>`__\n    notebook in the pyfar example gallery.\n    """\n\n    # these have to be set here, because they are used in __setattr__ and\n    # Python checks if they exist upon class creation\n\n    # don\'t allow adding attributes and deleting/writing read only attributes\n    _protected = False\n    # list of read only attributes (filled upon init)\n    _read_only_attr = []\n\n    def __init__(self, convention, mandatory=False, version="latest",\n                 verify=\'auto\'):\n        """See class docstring."""\n\n        # get convention\n        if convention is not None:\n            self._convention = self._load_convention(convention, version)\n\n            # update read only attributes\n            self._update_read_only_attr()\n\n            # add attributes with default values\n            self._convention_to_sofa(mandatory)\n\n            # set default for verify\n            version = \\\n                self._convention[\'GLOBAL_SOFAConventionsVersion\'][\'default\']\n            if verify == \'auto\':\n                verify = True if parse(version) >= parse(\'1.0\') else False\n\n            # add and update the API\n            # (mandatory=False can not be verified because some conventions\n            # have default values that have optional variables as dependencies)\n            if verify and not mandatory:\n                self.verify(mode="read")\n            # warning for preliminary conventions if verification is bypassed\n            elif parse(version) < parse(\'1.0\'):\n                warnings.warn(UserWarning((\n                    f"Detected preliminary conventions version {version}. "\n                    "Upgrade data to version >= 1.0 if possible. Preliminary "\n                    "conventions might change in the future, which could "\n                    "invalidate data that was written before the changes.")),\n                    stacklevel=2)\n\n            self.protected = True\n        else:\n            verify = False\n            self._convention = {}\n\n    def __setattr__(self, name: str, value):\n        """\n        Set attribute in Sofa object.\n\n        Overloads the default ``__setattr__`` method to block setting\n        read-only data.\n        """\n        # don\'t allow new attributes to be added outside the class\n        if self.protected and not hasattr(self, name):\n            raise TypeError(f"{name} is an invalid attribute")\n\n        # don\'t allow setting read only attributes\n        if name in self._read_only_attr and self.protected:\n            raise TypeError((\n                f"{name} is a read only attribute. Iy you know what you are "\n                "doing, you can set Sofa.protected = False to write read "\n                "only data (e.g., to repair corrupted SOFA data)."))\n\n        # convert to numpy array or scalar\n        if not isinstance(value, (str, dict, np.ndarray)) \\\n                and name != "protected":\n            value = np.atleast_2d(value)\n            if value.size == 1:\n                value = value.flatten()[0]\n\n        super.__setattr__(self, name, value)\n\n    def __delattr__(self, name: str):\n        """\n        Delete attribute from Sofa object.\n\n        Overloads the default ``__delattr__`` method to block deleting\n        mandatory data.\n        """\n        # can\'t delete non existing attributes\n        if not hasattr(self, name):\n            raise TypeError(f"{name} is not an attribute")\n        # delete anything if not frozen, delete non mandatory\n        if not self.protected or \\\n                not self._mandatory(self._convention[name]["flags"]):\n            super().__delattr__(name)\n\n            # check if custom field as to be deleted\n            if hasattr(self, "_custom"):\n                if name in self._custom:\n                    self._custom.pop(name)\n                    self._convention.pop(name, None)\n        else:\n            raise TypeError(\n                f"{name} is a mandatory attribute that can not be deleted")\n\n    def __repr__(self):\n        """String representation of Sofa object."""\n        return (f"sofar.SOFA object: {self.GLOBAL_SOFAConventions} "\n                f"{self.GLOBAL_SOFAConventionsVersion}")\n\n    @property\n    def list_dimensions(self):\n        """\n        Print the dimensions of the SOFA object.\n\n        See :py:func:`~Sofa.inspect` to see the shapes of the data inside the\n        SOFA object and :py:func:`~Sofa.get_dimension` to get the size/value\n        of a specific dimensions as integer number.\n\n        The SOFA file standard defines the following dimensions that are used\n        to define the shape of the data entries:\n\n        M\n            number of measurements\n        N\n            number of samples, frequencies, SOS coefficients\n            (depending on self.GLOBAL_DataType)\n        R\n            Number of receivers or SH coefficients\n            (depending on ReceiverPosition_Type)\n        E\n            Number of emitters or SH coefficients\n            (depending on EmitterPosition_Type)\n        S\n            Maximum length of a string in a string array\n        C\n            Size of the coordinate dimension. This is always three.\n        I\n            Single dimension. This is always one.\n\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        # get verbose description for dimension N\n        if self.GLOBAL_DataType.startswith("FIR"):\n            N_verbose = "samples"\n        elif self.GLOBAL_DataType.startswith("TF"):\n            N_verbose = "frequencies"\n        elif self.GLOBAL_DataType.startswith("SOS"):\n            N_verbose = "SOS coefficients"\n        else:\n            N_verbose = "data points"\n\n        # get verbose description for dimensions R and E\n        R_verbose = "receiver spherical harmonics coefficients" if \\\n            \'harmonic\' in self.ReceiverPosition_Type else "receiver"\n        E_verbose = "emitter spherical harmonics coefficients" if \\\n            \'harmonic\' in self.EmitterPosition_Type else "emitter"\n\n        dimensions = {\n            "M": "measurements",\n            "N": N_verbose,\n            "R": R_verbose,\n            "E": E_verbose,\n            "S": "maximum string length",\n            "C": "coordinate dimensions, fixed",\n            "I": "single dimension, fixed"}\n\n        info_str = ""\n        for key, value in self._api.items():\n            dim_info = dimensions[key] if key in dimensions \\\n                else "custom dimension"\n\n            info_str += f"{key} = {value} {dim_info}"\n\n            if dim_info != "custom ":\n                for key2, value2 in self._convention.items():\n                    dim = value2["dimensions"]\n                    if dim is not None and key.lower() in dim:\n                        info_str += \\\n                            f" (set by {key2} of dimension {dim.upper()})"\n                        break\n\n            info_str += "\\n"\n\n        print(info_str)\n\n    def get_dimension(self, dimension):\n        """\n        Get size of a SOFA dimension.\n\n        SOFA dimensions specify the shape of the data contained in a SOFA\n        object. For a list of all dimensions see :py:func:`~list_dimensions`.\n\n        Parameters\n        ----------\n        dimension : str\n            The dimension as a string, e.g., ``\'N\'``.\n\n        Returns\n        -------\n        size : int\n            the size of the queried dimension.\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension not in self._api:\n            raise ValueError((\n                f"{dimension} is not a valid dimension. "\n                "See Sofa.list_dimensions for a list of valid dimensions."))\n\n        return self._api[dimension]\n\n    def _update_dimensions(self):\n        """\n        Call verify and raise an error if the dimensions could not be updated.\n\n        used in Sofa.list_dimensions and Sofa.get_dimension\n        """\n\n        issues = self.verify(issue_handling="return")\n        if issues is not None and ("data of wrong type" in issues or\n                                   "variables of wrong shape" in issues or\n                                   not hasattr(self, "_api")):\n            raise ValueError(("Dimensions can not be shown because variables "\n                              "of wrong type or shape were detected. "\n                              "Call Sofa.verify() for more information."))\n\n    def info(self, info="all"):\n        """\n        Print information about the convention of a SOFA object.\n\n        Prints the variable type (attribute, double, string), shape, flags\n        (mandatory, read only) and comment (if any) for each or selected\n        entries.\n\n        Parameters\n        ----------\n        info : str\n            Specifies the kind of information that is printed:\n\n            ``\'all\'`` ``\'mandatory\'`` ``\'optional\'`` ``\'read only\'`` ``\'data\'``\n                Print the name, type, shape, and flags and comment for all or\n                selected entries of the SOFA object. ``\'data\'`` does not show\n                entries of type attribute.\n            key\n                If key is the name of an object attribute, all information for\n                attribute will be printed.\n        """\n\n        # warn for upcoming deprecation\n        warnings.warn((\n            \'Sofa.info() will be deprecated in sofar 1.3.0 The conventions are\'\n            \' now documented at \'\n            \'https://sofar.readthedocs.io/en/stable/resources/conventions.html\'),\n            UserWarning, stacklevel=1)\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        if not hasattr(self, "_convention"):\n            self._reset_convention()\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        if info in ["all", "mandatory", "optional", "read only", "data"]:\n\n            info_str += f"showing {info} entries : type (shape), flags\\n\\n"\n\n            for key in keys:\n\n                # check if field should be skipped\n                flags = self._convention[key]["flags"]\n                if (not self._mandatory(flags) and info == "mandatory") \\\n                        or \\\n                        (self._mandatory(flags) and info == "optional") \\\n                        or \\\n                        (not self._read_only(flags) and info == "read only") \\\n                        or \\\n                        (self._convention[key][\'type\'] == "attribute" and\n                         info == "data"):\n                    continue\n\n                info_str += f"{key} : {self._convention[key][\'type\']}"\n\n                if self._convention[key][\'dimensions\']:\n                    info_str += \\\n                        f" ({self._convention[key][\'dimensions\'].upper()})"\n\n                if self._mandatory(flags):\n                    info_str += ", mandatory"\n                else:\n                    info_str += ", optional"\n                if self._read_only(flags):\n                    info_str += ", read only"\n\n                if self._convention[key][\'comment\']:\n                    info_str += f"\\n    {self._convention[key][\'comment\']}\\n"\n                else:\n                    info_str += "\\n"\n\n        elif info in keys:\n\n            for key in [k for k in keys if info in k]:\n                comment = str(self._convention[key][\'comment\'])\n\n                info_str += (\n                    f"{key}\\n"\n                    f"    type: {self._convention[key][\'type\']}\\n"\n                    f"    mandatory: "\n                    f"{self._mandatory(self._convention[key][\'flags\'])}\\n"\n                    f"    read only: "\n                    f"{self._read_only(self._convention[key][\'flags\'])}\\n"\n                    f"    default: {self._convention[key][\'default\']}\\n"\n                    f"    shape: "\n                    f"{str(self._convention[key][\'dimensions\']).upper()}\\n"\n                    f"    comment: {comment}\\n")\n        else:\n            raise ValueError(f"info=\'{info}\' is invalid")\n\n        print(info_str)\n\n    def inspect(self, file=None, issue_handling="print"):\n        """\n        Get information about data inside a SOFA object.\n\n        Prints the values of all attributes and variables with six or less\n        entries and the shapes and type of all numeric and string variables.\n        When printing the values of arrays, single dimensions are discarded for\n        easy of display, i.e., an array of shape (1, 3, 2) will be displayed as\n        an array of shape (3, 2).\n\n        Parameters\n        ----------\n        file : str\n            Full path of a file under which the information is to be stored in\n            plain text. The default ``None`` only print the information to the\n            console.\n        issue_handling : str, optional\n            Defines how issues detected during verification of the SOFA object\n            are handled (see :py:func:`~sofar.sofar.Sofa.verify`)\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n            ``\'ignore\'``\n                Issues are ignored, i.e., not raised, printed, or returned.\n\n            The default is ``\'print\'``.\n        """\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        self.verify(issue_handling=issue_handling)\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        for key in keys:\n\n            info_str += key + " : "\n            value = getattr(self, key)\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n    def add_missing(self, mandatory=True, optional=True, verbose=True):\n        """\n        Add missing data with default values.\n\n        Data might be missing in SOFA objects if the creator did not include it\n        or if a new data was suggested for a newer version of a SOFA\n        convention. Use this function to add the data with its default values.\n\n        mandatory : Bool\n            Add missing mandatory data. The default is ``True``.\n        optional : Bool\n            Add missing optional data. The default is ``True``.\n        verbose : Bool\n            Print the information about added data to the console. The default\n            is ``True``.\n        """\n\n        # initialize\n        self._reset_convention()\n        added = "Added the following missing data with their default values:\\n"\n\n        # current data\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        with self._unprotected():\n\n            # loop data in convention\n            for key in self._convention.keys():\n                is_mandatory = self._mandatory(self._convention[key]["flags"])\n                add_data = (is_mandatory and mandatory) or \\\n                    (not is_mandatory and optional)\n                # add with default\n                if key not in keys and add_data:\n                    setattr(self, key, self._convention[key]["default"])\n                    kind = \'mandatory\' if is_mandatory else \'optional\'\n                    added += f"- {key} ({kind})\\n"\n\n        if verbose:\n            if "-" in added:\n                print(added)\n            else:\n                print("All mandatory data contained.")\n\n    def add_variable(self, name, value, dtype, dimensions):\n        """\n        Add custom variable to the SOFA object, i.e., numeric or string arrays.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new variable.\n        value : any\n            value to be added (see `dtype` for restrictions).\n        dtype : str\n            Type of the entry to be added in netCDF style:\n\n            ``\'double\'``\n                Use this to store numeric data that can be provided as number\n                list or numpy array.\n            ``\'string\'``\n                Use this to store string variables as numpy string arrays of\n                type ``\'U\'`` or ``\'S\'``.\n\n        dimensions : str\n            The shape of the new entry as a string. See\n            :py:func:`~Sofa.list_dimensions`.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add numeric data\n            sofa.add_variable("Temperature", 25.1, "double", "MI")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_entry(\n                "GLOBAL_DateMeasured", "8.08.2021", "attribute", None)\n            sofa.add_entry(\n                "Temperature_Units", "degree Celsius", "attribute", None)\n\n            # add a string data\n            sofa.add_variable(\n                "Comment", "Measured with wind screen", "string", "MS")\n        """\n\n        self._add_entry(name, value, dtype, dimensions)\n\n    def add_attribute(self, name, value):\n        """\n        Add custom attribute to the SOFA object.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new attribute.\n        value : str\n            value to be added.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_attribute("GLOBAL_DateMeasured", "8.08.2021")\n            sofa.add_attribute("Data_Real_Units", "Pascal")\n\n        """\n\n        self._add_entry(name, value, \'attribute\', None)\n\n    def delete(self, name):\n        """\n        Delete variable or attribute from SOFA object.\n\n        Note that mandatory data can not be deleted. Check the\n        `sofar documentation\n        <https://sofar.readthedocs.io/en/stable/resources/conventions.html>`_\n        for a complete list of optional variables and attributes.\n\n        Parameters\n        ----------\n        name : str\n            Name of the variable or attribute to be deleted\n        """\n        delattr(self, name)\n\n    @contextmanager\n    def _unprotected(self):\n        """Lift the write protection for a with block."""\n        self.protected = False\n        try:\n            yield\n        finally:\n            self.protected = True\n\n    @property\n    def protected(self):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        return self._protected\n\n    @protected.setter\n    def protected(self, value: bool):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        if not isinstance(value, bool):\n            raise ValueError("Sofa.protected can only be True or False")\n        self._protected = value\n\n    def _add_entry(self, name, value, dtype, dimensions):\n        """\n        Add custom data to a SOFA object. See add_variable and add_attribute\n        for more information.\n        """\n\n        # check input\n        if hasattr(self, name):\n            raise ValueError(f"Entry {name} already exists")\n        if dtype not in ["attribute", "double", "string"]:\n            raise ValueError(\n                f"dtype is {dtype} but must be attribute, double, or string")\n        if "_" in name and dtype != "attribute":\n            raise ValueError(("underscores \'_\' in the name are only "\n                              "allowed for attributes"))\n        if dtype == "attribute":\n            if name.count("_") != 1 or \\\n                    (name.startswith("Data_") and (name.count("_") == 0 or\n                                                   name.count("_") > 2)):\n                raise ValueError((f"The name of {name} must have the "\n                                  "form VariableName_AttributeName"))\n            if not name.startswith("GLOBAL_") and \\\n                    name[:name.rindex("_")] not in self._convention:\n                raise ValueError((f"Adding Attribute {name} requires "\n                                  f"variable {name[:name.rindex(\'_\')]}"))\n        if dtype != "attribute" and ("." in name or "/" in name):\n            raise ValueError(("points \'.\' and slashes \'/\' are only allowed in "\n                              "the names of attributes"))\n        if dimensions is None and dtype != "attribute":\n            raise ValueError(("dimensions must be provided for entries of "\n                              "dtype double and string"))\n        if dimensions is not None:\n            dimensions = dimensions.upper()\n            for dimension in dimensions:\n                if dimension not in "ERMNCIS":\n                    warnings.warn(\n                        f"Added custom dimension {dimensions} to SOFA object",\n                        stacklevel=2)\n\n        # add attribute to class\n        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n\n    def _add_custom_api_entry(self, key, value, flags, dimensions, dtype):\n        """\n        Add custom entry to the sofa._convention and permanently save it in\n        sofa._custom.\n\n        Parameters\n        ----------\n        key : str\n            name of the entry\n        value: any\n            Value of the entry\n        flags, dimensions, dtype : any\n            as in sofa._convention\n        dimensions : string\n            Dimensions in case of numeric or string array\n        dtype : string\n            double, string, or attribute\n        """\n        # create custom API if it not exists\n        self.protected = False\n\n        # add attribute to object (done first, because it fails for values\n        # that can not be converted)\n        try:\n            setattr(self, key, value)\n        except Exception:\n            self.protected = True\n            raise\n\n        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()\n                          for d in dimensions]\n            dimensions = "".join(dimensions)\n\n        # add user entry to custom API, if not contained in the convention\n        if not hasattr(self, "_convention") or key not in self._convention:\n            if not hasattr(self, "_custom"):\n                self._custom = {}\n\n            self._custom[key] = {\n                "flags": flags,\n                "dimensions": dimensions,\n                "type": dtype,\n                "default": None,\n                "comment": ""}\n            self._convention[key] = self._custom[key]\n\n        self.protected = True\n\n    def upgrade_convention(self, target=None, verify=\'auto\'):\n        """\n        Upgrade Sofa data to newer conventions.\n\n        Calling this with the default arguments returns a list of possible\n        conventions to which the data will be upgraded. If the data is up to\n        date the list will be empty.\n\n        Parameters\n        ----------\n        target : str, optional\n            The convention and version to which the data should be upgraded as\n            a string. For example ``\'SimpleFreeFieldHRIR_1.0\'`` would upgrade\n            the data to the SOFA-Convention `SimpleFreeFieldHRIR` version 1.0.\n            The default is ``None`` which returns a list of possible\n            conventions to which the data can be updated.\n        verify : bool, optional\n            Flag to specify if the data should be verified after the upgrade\n            using :py:func:`~Sofa.verify`. The default ``\'auto\'`` defaults to\n            ``True`` for stable conventions with versions of 1.0 or higher and\n            to ``False`` otherwise.\n\n        Returns\n        -------\n        target : list of strings\n            List with available conventions to which the data can be updated.\n            If the data is up to data, the list will be empty. `target` is only\n            returned if `target` is ``None``.\n        """\n\n        # check input ---------------------------------------------------------\n        self._reset_convention()\n\n        # get deprecations and information about Sofa object\n        _, _, deprecations, upgrade = self._verification_rules()\n        convention_current = self.GLOBAL_SOFAConventions\n        version_current = self.GLOBAL_SOFAConventionsVersion\n        sofa_version_current = self.GLOBAL_Version\n\n        # check if convention is deprecated -----------------------------------\n        is_deprecated = False\n\n        if convention_current in deprecations["GLOBAL:SOFAConventions"]:\n            is_deprecated = True\n        elif convention_current in upgrade:\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    is_deprecated = True\n                    break\n\n        # check for upgrades --------------------------------------------------\n        if is_deprecated:\n            # check if upgrade is available for this convention\n            if convention_current not in upgrade:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n\n            # check if upgrade is available for this version\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    targets = from_to[1]\n\n                    if target in targets:\n                        target_id = from_to[2]\n                    else:\n                        if target is not None:\n                            print(f"{target} is invalid.")\n\n                        upgrades = (\n                            f"{convention_current} v{version_current} "\n                            "can be upgraded to:\\n")\n                        for t in targets:\n                            t = t.split("_")\n                            upgrades += f"- {t[0]} v{t[1]}\\n"\n                        print(upgrades)\n                        return targets\n                    break\n            else:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n        else:\n            print((f"Convention {convention_current} v{version_current} "\n                   "is up to date"))\n            return\n\n        # get information to upgrade ------------------------------------------\n        upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]\n        convention_target, version_target = target.split("_")\n\n        # upgrade -------------------------------------------------------------\n        self._convention = self._load_convention(\n            convention_target, version_target)\n        sofa_version_target = self._convention["GLOBAL_Version"]["default"]\n\n        print((f"Upgrading {convention_current} v{version_current} to "\n               f"{convention_target} v{version_target} (SOFA version "\n               f"{sofa_version_current} to {sofa_version_target})"))\n\n        with self._unprotected():\n            self._apply_upgrade(upgrade)\n\n        # display general message\n        if upgrade["message"] is not None:\n            print(upgrade["message"])\n\n        # set default for verify\n        if verify == \'auto\':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse(\'1.0\') else False\n        if verify:\n            self.verify()\n\n    def _apply_upgrade(self, upgrade):\n        """\n        Apply an upgrade rule, used in Sofa.upgrade_convention after the target\n        convention was loaded.\n        """\n        # upgrade convention\n        keys = ["GLOBAL_SOFAConventions",\n                "GLOBAL_SOFAConventionsVersion",\n                "GLOBAL_Version",\n                "GLOBAL_DataType"]\n\n        for key in keys:\n            setattr(self, key, self._convention[key]["default"])\n\n        # move data\n        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = source.replace(".", \'_\').replace(":", "_")\n            target_sofar = move["target"].replace(".", \'_\').replace(":", "_")\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n            # nothing to move if optional data are not contained\n            if not hasattr(self, source_sofar):\n                continue\n            # get data\n            data = getattr(self, source_sofar)\n            # delete from Sofa object\n            delattr(self, source_sofar)\n            # Check move axis\n            moveaxis = upgrade["move"][source]["moveaxis"]\n            if moveaxis is not None:\n                # add dimensions if required\n                # (sofar discards trailing singular dimensions)\n                while data.ndim < np.max(moveaxis) + 1:\n                    data = data[..., None]\n                # move the axis\n                data = np.moveaxis(data, moveaxis[0], moveaxis[1])\n                move_info += f" Moving axis {moveaxis[0]} to {moveaxis[1]}."\n            # Check deprecated dimensions\n            deprecated_dimensions = \\\n                upgrade["move"][source]["deprecated_dimensions"]\n            if deprecated_dimensions is not None:\n                move_info += (\n                    f" WARNING: Dimensions {\', \'.join(deprecated_dimensions)} "\n                    "are now deprecated.")\n            # add data\n            setattr(self, target_sofar, data)\n            # print info\n            print(move_info)\n\n        if not upgrade["move"]:\n            print("- No data to move")\n\n        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = target.replace(".", \'_\').replace(":", "_")\n            # nothing to delete if optional data are not contained\n            if not hasattr(self, target_sofar):\n                continue\n            delattr(self, target_sofar)\n            print(f"- Deleting {target_sofar}.")\n\n        if not upgrade["remove"]:\n            print("- No data to remove")\n\n        # check for missing mandatory data\n        self.add_missing(True, False)\n\n    def verify(self, issue_handling="raise", mode="write"):\n        """\n        Verify a SOFA object against the SOFA standard.\n\n        This function updates the API, and checks the following\n\n        - Are all mandatory data contained? If `issue_handling` is ``"raise"``\n          missing mandatory data raises an error. Otherwise mandatory data are\n          added with their default value and a warning is given.\n        - Are the names of variables and attributes in accordance to the SOFA\n          standard?\n        - Are the data types in accordance with the SOFA standard?\n        - Are the dimensions of the variables consistent and in accordance\n          to the SOFA standard?\n        - Are the values of attributes consistent and in accordance to the\n          SOFA standard?\n\n        A detailed set of validation rules can be found at\n        https://github.com/pyfar/sofar/tree/main/sofar/verification_rules\n\n        .. note::\n            :py:func:`~verify` is automatically called when you create a new\n            SOFA object, read a SOFA file from disk, and write a SOFA file to\n            disk (using the default parameters).\n\n        The API of a SOFA object consists of four parts, that are stored\n        dictionaries in private attributes. This is required for writing data\n        with :py:func:`~sofa.write_sofa` and should usually not be manipulated\n        outside of :py:func:`~verify`\n\n        self._convention\n            The SOFA convention with default values, variable dimensions, flags\n            and comments. These data are read from the official SOFA\n            conventions contained in the SOFA Matlab/Octave API.\n        self._dimensions\n            The detected dimensions of the data inside the SOFA object.\n        self._api\n            The size of the dimensions (see py:func:`~list_dimensions`). This\n            specifies the dimensions of the data inside the SOFA object.\n        self._custom\n            Stores information of custom variables that are not defined by the\n            convention. The format is the same as in `self._convention`.\n\n        Parameters\n        ----------\n        issue_handling : str, optional\n            Defines how detected issues are handled\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n\n            The default is ``\'raise\'``.\n        mode : str, optional\n            The SOFA standard is more strict for writing data than for reading\n            data.\n\n            ``\'write\'``\n                All units (e.g. \'meter\') must be written be lower case.\n            ``\'read\'``\n                Units can contain upper case letters (e.g. \'Meter\')\n\n            The default is ``\'write\'``\n\n        Returns\n        -------\n        issues : str, None\n            Detected issues as a string. None if no issues were detected. Note\n            that this is only returned if ``issue_handling=\'return\'`` (see\n            above)\n\n        """\n        # NOTE: This function collects warnings and errors and tries to output\n        # them in a block. This makes the code slightly more complicated but\n        # is more convenient for the user and with respect to a potential\n        # future web based tool for verifying SOFA files.\n\n        # initialize warning and error messages\n        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg = "\\nWARNINGS\\n--------\\n"\n\n        # ---------------------------------------------------------------------\n        # 0. update the convention\n        self._reset_convention()\n\n        # initialize required API fields (forget dimensions of former data)\n        with self._unprotected():\n            self._dimensions = {}\n            self._api = {}\n\n        # ---------------------------------------------------------------------\n        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    with self._unprotected():\n                        setattr(self, key, self._convention[key]["default"])\n\n'))
r("iz-block-class", (SO, '                    _verify_convention_and_version)\n\n\nclass Sofa():\n    """Create a new SOFA object.\n\n    Parameters\n    ----------\n    convention : str\n        The name of the convention from which the SOFA file is created. See\n        :py:func:`~sofar.list_conventions`.\n    mandatory : bool, optional\n        If ``True``, only the mandatory data of the convention will be\n        returned. The default is ``False``, which returns mandatory and\n        optional data.\n    version : str, optional\n        The version of the convention as a string, e.g., ``\' 2.0\'``. The\n        default is ``\'latest\'``. Also see :py:func:`~sofar.list_conventions`.\n    verify : bool, optional\n        Verify the SOFA object by calling :py:func:`~Sofa.verify`. This helps\n        to find potential errors in the default values and is thus recommended\n        If creating a file does not work, try to call `Sofa` with\n        ``verify=False``. The default ``\'auto\'`` defaults to ``True`` for\n        stable conventions with versions of 1.0 or higher and to ``False``\n        otherwise.\n\n    Returns\n    -------\n    sofa : Sofa\n        A SOFA object filled with the default values of the convention.\n\n    Examples\n    --------\n    Create a new SOFA object with default values\n\n    .. code-block:: python\n\n        import sofar as sf\n\n        # create SOFA object\n        sofa = sf.Sofa("SimpleFreeFieldHRIR")\n\n    Add data as a list\n\n    .. code-block:: python\n\n        sofa.Data_IR = [1, 1]\n\n    Data can be entered as numbers, numpy arrays or lists. Note the following\n\n    1. Lists are converted to numpy arrays with at least two dimensions, i.e.,\n       ``sofa.Data_IR`` is converted to a numpy array of shape (1, 2)\n    2. Missing dimensions are appended when writing the SOFA object to disk,\n       i.e., ``sofa.Data_IR`` is written as an array of shape (1, 2, 1) because\n       the SOFA standard AES69 defines it as a three dimensional array\n       with the dimensions (`M: measurements`, `R: receivers`, `N: samples`)\n    3. When reading data from a SOFA file, array data is always returned as\n       numpy arrays and singleton trailing dimensions are discarded (numpy\n       default). I.e., ``sofa.Data_IR`` will again be an array of shape (1, 2)\n       after writing and reading to and from disk.\n    4. One dimensional arrays with only one element will be converted to scalar\n       values. E.g. ``sofa.Data_SamplingRate`` is stored as an array of shape\n       (1, ) inside SOFA files (according to the SOFA standard AES69) but\n       will be a scalar inside SOFA objects after reading from disk.\n\n\n    For more examples refer to the\n    `sofar and SOFA <https://pyfar-gallery.readthedocs.io/en/latest/gallery/interactive/sofar_introduction.html>`__\n    notebook in the pyfar example gallery.\n    """\n\n    # these have to be set here, because they are used in __setattr__ and\n    # Python checks if they exist upon class creation\n\n    # don\'t allow adding attributes and deleting/writing read only attributes\n    _protected = False\n    # list of read only attributes (filled upon init)\n    _read_only_attr = []\n\n    def __init__(self, convention, mandatory=False, version="latest",\n                 verify=\'auto\'):\n        """See class docstring."""\n\n        # get convention\n        if convention is not None:\n            self._convention = self._load_convention(convention, version)\n\n            # update read only attributes\n            self._update_read_only_attr()\n\n            # add attributes with default values\n            self._convention_to_sofa(mandatory)\n\n            # set default for verify\n            version = \\\n                self._convention[\'GLOBAL_SOFAConventionsVersion\'][\'default\']\n            if verify == \'auto\':\n                verify = True if parse(version) >= parse(\'1.0\') else False\n\n            # add and update the API\n            # (mandatory=False can not be verified because some conventions\n            # have default values that have optional variables as dependencies)\n            if verify and not mandatory:\n                self.verify(mode="read")\n            # warning for preliminary conventions if verification is bypassed\n            elif parse(version) < parse(\'1.0\'):\n                warnings.warn(UserWarning((\n                    f"Detected preliminary conventions version {version}. "\n                    "Upgrade data to version >= 1.0 if possible. Preliminary "\n                    "conventions might change in the future, which could "\n                    "invalidate data that was written before the changes.")),\n                    stacklevel=2)\n\n            self.protected = True\n        else:\n            verify = False\n            self._convention = {}\n\n    def __setattr__(self, name: str, value):\n        """\n        Set attribute in Sofa object.\n\n        Overloads the default ``__setattr__`` method to block setting\n        read-only data.\n        """\n        # don\'t allow new attributes to be added outside the class\n        if self.protected and not hasattr(self, name):\n            raise TypeError(f"{name} is an invalid attribute")\n\n        # don\'t allow setting read only attributes\n        if name in self._read_only_attr and self.protected:\n            raise TypeError((\n                f"{name} is a read only attribute. Iy you know what you are "\n                "doing, you can set Sofa.protected = False to write read "\n                "only data (e.g., to repair corrupted SOFA data)."))\n\n        # convert to numpy array or scalar\n        if not isinstance(value, (str, dict, np.ndarray)) \\\n                and name != "protected":\n            value = np.atleast_2d(value)\n            if value.size == 1:\n                value = value.flatten()[0]\n\n        super.__setattr__(self, name, value)\n\n    def __delattr__(self, name: str):\n        """\n        Delete attribute from Sofa object.\n\n        Overloads the default ``__delattr__`` method to block deleting\n        mandatory data.\n        """\n        # can\'t delete non existing attributes\n        if not hasattr(self, name):\n            raise TypeError(f"{name} is not an attribute")\n        # delete anything if not frozen, delete non mandatory\n        if not self.protected or \\\n                not self._mandatory(self._convention[name]["flags"]):\n            super().__delattr__(name)\n\n            # check if custom field as to be deleted\n            if hasattr(self, "_custom"):\n                if name in self._custom:\n                    self._custom.pop(name)\n                    self._convention.pop(name, None)\n        else:\n            raise TypeError(\n                f"{name} is a mandatory attribute that can not be deleted")\n\n    def __repr__(self):\n        """String representation of Sofa object."""\n        return (f"sofar.SOFA object: {self.GLOBAL_SOFAConventions} "\n                f"{self.GLOBAL_SOFAConventionsVersion}")\n\n    @property\n    def list_dimensions(self):\n        """\n        Print the dimensions of the SOFA object.\n\n        See :py:func:`~Sofa.inspect` to see the shapes of the data inside the\n        SOFA object and :py:func:`~Sofa.get_dimension` to get the size/value\n        of a specific dimensions as integer number.\n\n        The SOFA file standard defines the following dimensions that are used\n        to define the shape of the data entries:\n\n        M\n            number of measurements\n        N\n            number of samples, frequencies, SOS coefficients\n            (depending on self.GLOBAL_DataType)\n        R\n            Number of receivers or SH coefficients\n            (depending on ReceiverPosition_Type)\n        E\n            Number of emitters or SH coefficients\n            (depending on EmitterPosition_Type)\n        S\n            Maximum length of a string in a string array\n        C\n            Size of the coordinate dimension. This is always three.\n        I\n            Single dimension. This is always one.\n\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        # get verbose description for dimension N\n        if self.GLOBAL_DataType.startswith("FIR"):\n            N_verbose = "samples"\n        elif self.GLOBAL_DataType.startswith("TF"):\n            N_verbose = "frequencies"\n        elif self.GLOBAL_DataType.startswith("SOS"):\n            N_verbose = "SOS coefficients"\n        else:\n            N_verbose = "data points"\n\n        # get verbose description for dimensions R and E\n        R_verbose = "receiver spherical harmonics coefficients" if \\\n            \'harmonic\' in self.ReceiverPosition_Type else "receiver"\n        E_verbose = "emitter spherical harmonics coefficients" if \\\n            \'harmonic\' in self.EmitterPosition_Type else "emitter"\n\n        dimensions = {\n            "M": "measurements",\n            "N": N_verbose,\n            "R": R_verbose,\n            "E": E_verbose,\n            "S": "maximum string length",\n            "C": "coordinate dimensions, fixed",\n            "I": "single dimension, fixed"}\n\n        info_str = ""\n        for key, value in self._api.items():\n            dim_info = dimensions[key] if key in dimensions \\\n                else "custom dimension"\n\n            info_str += f"{key} = {value} {dim_info}"\n\n            if dim_info != "custom ":\n                for key2, value2 in self._convention.items():\n                    dim = value2["dimensions"]\n                    if dim is not None and key.lower() in dim:\n                        info_str += \\\n                            f" (set by {key2} of dimension {dim.upper()})"\n                        break\n\n            info_str += "\\n"\n\n        print(info_str)\n\n    def get_dimension(self, dimension):\n        """\n        Get size of a SOFA dimension.\n\n        SOFA dimensions specify the shape of the data contained in a SOFA\n        object. For a list of all dimensions see :py:func:`~list_dimensions`.\n\n        Parameters\n        ----------\n        dimension : str\n            The dimension as a string, e.g., ``\'N\'``.\n\n        Returns\n        -------\n        size : int\n            the size of the queried dimension.\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension not in self._api:\n            raise ValueError((\n                f"{dimension} is not a valid dimension. "\n                "See Sofa.list_dimensions for a list of valid dimensions."))\n\n        return self._api[dimension]\n\n    def _update_dimensions(self):\n        """\n        Call verify and raise an error if the dimensions could not be updated.\n\n        used in Sofa.list_dimensions and Sofa.get_dimension\n        """\n\n        issues = self.verify(issue_handling="return")\n        if issues is not None and ("data of wrong type" in issues or\n                                   "variables of wrong shape" in issues or\n                                   not hasattr(self, "_api")):\n            raise ValueError(("Dimensions can not be shown because variables "\n                              "of wrong type or shape were detected. "\n                              "Call Sofa.verify() for more information."))\n\n    def info(self, info="all"):\n        """\n        Print information about the convention of a SOFA object.\n\n        Prints the variable type (attribute, double, string), shape, flags\n        (mandatory, read only) and comment (if any) for each or selected\n        entries.\n\n        Parameters\n        ----------\n        info : str\n            Specifies the kind of information that is printed:\n\n            ``\'all\'`` ``\'mandatory\'`` ``\'optional\'`` ``\'read only\'`` ``\'data\'``\n                Print the name, type, shape, and flags and comment for all or\n                selected entries of the SOFA object. ``\'data\'`` does not show\n                entries of type attribute.\n            key\n                If key is the name of an object attribute, all information for\n                attribute will be printed.\n        """\n\n        # warn for upcoming deprecation\n        warnings.warn((\n            \'Sofa.info() will be deprecated in sofar 1.3.0 The conventions are\'\n            \' now documented at \'\n            \'https://sofar.readthedocs.io/en/stable/resources/conventions.html\'),\n            UserWarning, stacklevel=1)\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        if not hasattr(self, "_convention"):\n            self._reset_convention()\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        if info in ["all", "mandatory", "optional", "read only", "data"]:\n\n            info_str += f"showing {info} entries : type (shape), flags\\n\\n"\n\n            for key in keys:\n\n                # check if field should be skipped\n                flags = self._convention[key]["flags"]\n                if (not self._mandatory(flags) and info == "mandatory") \\\n                        or \\\n                        (self._mandatory(flags) and info == "optional") \\\n                        or \\\n                        (not self._read_only(flags) and info == "read only") \\\n                        or \\\n                        (self._convention[key][\'type\'] == "attribute" and\n                         info == "data"):\n                    continue\n\n                info_str += f"{key} : {self._convention[key][\'type\']}"\n\n                if self._convention[key][\'dimensions\']:\n                    info_str += \\\n                        f" ({self._convention[key][\'dimensions\'].upper()})"\n\n                if self._mandatory(flags):\n                    info_str += ", mandatory"\n                else:\n                    info_str += ", optional"\n                if self._read_only(flags):\n                    info_str += ", read only"\n\n                if self._convention[key][\'comment\']:\n                    info_str += f"\\n    {self._convention[key][\'comment\']}\\n"\n                else:\n                    info_str += "\\n"\n\n        elif info in keys:\n\n            for key in [k for k in keys if info in k]:\n                comment = str(self._convention[key][\'comment\'])\n\n                info_str += (\n                    f"{key}\\n"\n                    f"    type: {self._convention[key][\'type\']}\\n"\n                    f"    mandatory: "\n                    f"{self._mandatory(self._convention[key][\'flags\'])}\\n"\n                    f"    read only: "\n                    f"{self._read_only(self._convention[key][\'flags\'])}\\n"\n                    f"    default: {self._convention[key][\'default\']}\\n"\n                    f"    shape: "\n                    f"{str(self._convention[key][\'dimensions\']).upper()}\\n"\n                    f"    comment: {comment}\\n")\n        else:\n            raise ValueError(f"info=\'{info}\' is invalid")\n\n        print(info_str)\n\n    def inspect(self, file=None, issue_handling="print"):\n        """\n        Get information about data inside a SOFA object.\n\n        Prints the values of all attributes and variables with six or less\n        entries and the shapes and type of all numeric and string variables.\n        When printing the values of arrays, single dimensions are discarded for\n        easy of display, i.e., an array of shape (1, 3, 2) will be displayed as\n        an array of shape (3, 2).\n\n        Parameters\n        ----------\n        file : str\n            Full path of a file under which the information is to be stored in\n            plain text. The default ``None`` only print the information to the\n            console.\n        issue_handling : str, optional\n            Defines how issues detected during verification of the SOFA object\n            are handled (see :py:func:`~sofar.sofar.Sofa.verify`)\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n            ``\'ignore\'``\n                Issues are ignored, i.e., not raised, printed, or returned.\n\n            The default is ``\'print\'``.\n        """\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        self.verify(issue_handling=issue_handling)\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        for key in keys:\n\n            info_str += key + " : "\n            value = getattr(self, key)\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n    def add_missing(self, mandatory=True, optional=True, verbose=True):\n        """\n        Add missing data with default values.\n\n        Data might be missing in SOFA objects if the creator did not include it\n        or if a new data was suggested for a newer version of a SOFA\n        convention. Use this function to add the data with its default values.\n\n        mandatory : Bool\n            Add missing mandatory data. The default is ``True``.\n        optional : Bool\n            Add missing optional data. The default is ``True``.\n        verbose : Bool\n            Print the information about added data to the console. The default\n            is ``True``.\n        """\n\n        # initialize\n        self._reset_convention()\n        added = "Added the following missing data with their default values:\\n"\n\n        # current data\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        self.protected = False\n\n        # loop data in convention\n        for key in self._convention.keys():\n            is_mandatory = self._mandatory(self._convention[key]["flags"])\n            add_data = (is_mandatory and mandatory) or \\\n                (not is_mandatory and optional)\n            # add with default\n            if key not in keys and add_data:\n                setattr(self, key, self._convention[key]["default"])\n                added += f"- {key} "\n                added += f"({\'mandatory\' if is_mandatory else \'optional\'})\\n"\n\n        self.protected = True\n\n        if verbose:\n            if "-" in added:\n                print(added)\n            else:\n                print("All mandatory data contained.")\n\n    def add_variable(self, name, value, dtype, dimensions):\n        """\n        Add custom variable to the SOFA object, i.e., numeric or string arrays.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new variable.\n        value : any\n            value to be added (see `dtype` for restrictions).\n        dtype : str\n            Type of the entry to be added in netCDF style:\n\n            ``\'double\'``\n                Use this to store numeric data that can be provided as number\n                list or numpy array.\n            ``\'string\'``\n                Use this to store string variables as numpy string arrays of\n                type ``\'U\'`` or ``\'S\'``.\n\n        dimensions : str\n            The shape of the new entry as a string. See\n            :py:func:`~Sofa.list_dimensions`.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add numeric data\n            sofa.add_variable("Temperature", 25.1, "double", "MI")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_entry(\n                "GLOBAL_DateMeasured", "8.08.2021", "attribute", None)\n            sofa.add_entry(\n                "Temperature_Units", "degree Celsius", "attribute", None)\n\n            # add a string data\n            sofa.add_variable(\n                "Comment", "Measured with wind screen", "string", "MS")\n        """\n\n        self._add_entry(name, value, dtype, dimensions)\n\n    def add_attribute(self, name, value):\n        """\n        Add custom attribute to the SOFA object.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new attribute.\n        value : str\n            value to be added.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_attribute("GLOBAL_DateMeasured", "8.08.2021")\n            sofa.add_attribute("Data_Real_Units", "Pascal")\n\n        """\n\n        self._add_entry(name, value, \'attribute\', None)\n\n    def delete(self, name):\n        """\n        Delete variable or attribute from SOFA object.\n\n        Note that mandatory data can not be deleted. Check the\n        `sofar documentation\n        <https://sofar.readthedocs.io/en/stable/resources/conventions.html>`_\n        for a complete list of optional variables and attributes.\n\n        Parameters\n        ----------\n        name : str\n            Name of the variable or attribute to be deleted\n        """\n        delattr(self, name)\n\n    @property\n    def protected(self):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        return self._protected\n\n    @protected.setter\n    def protected(self, value: bool):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        if not isinstance(value, bool):\n            raise ValueError("Sofa.protected can only be True or False")\n        self._protected = value\n\n    def _add_entry(self, name, value, dtype, dimensions):\n        """\n        Add custom data to a SOFA object. See add_variable and add_attribute\n        for more information.\n        """\n\n        # check input\n        if hasattr(self, name):\n            raise ValueError(f"Entry {name} already exists")\n        if dtype not in ["attribute", "double", "string"]:\n            raise ValueError(\n                f"dtype is {dtype} but must be attribute, double, or string")\n        if "_" in name and dtype != "attribute":\n            raise ValueError(("underscores \'_\' in the name are only "\n                              "allowed for attributes"))\n        if dtype == "attribute":\n            if name.count("_") != 1 or \\\n                    (name.startswith("Data_") and (name.count("_") == 0 or\n                                                   name.count("_") > 2)):\n                raise ValueError((f"The name of {name} must have the "\n                                  "form VariableName_AttributeName"))\n            if not name.startswith("GLOBAL_") and \\\n                    name[:name.rindex("_")] not in self._convention:\n                raise ValueError((f"Adding Attribute {name} requires "\n                                  f"variable {name[:name.rindex(\'_\')]}"))\n        if dtype != "attribute" and ("." in name or "/" in name):\n            raise ValueError(("points \'.\' and slashes \'/\' are only allowed in "\n                              "the names of attributes"))\n        if dimensions is None and dtype != "attribute":\n            raise ValueError(("dimensions must be provided for entries of "\n                              "dtype double and string"))\n        if dimensions is not None:\n            dimensions = dimensions.upper()\n            for dimension in dimensions:\n                if dimension not in "ERMNCIS":\n                    warnings.warn(\n                        f"Added custom dimension {dimensions} to SOFA object",\n                        stacklevel=2)\n\n        # add attribute to class\n        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n\n    def _add_custom_api_entry(self, key, value, flags, dimensions, dtype):\n        """\n        Add custom entry to the sofa._convention and permanently save it in\n        sofa._custom.\n\n        Parameters\n        ----------\n        key : str\n            name of the entry\n        value: any\n            Value of the entry\n        flags, dimensions, dtype : any\n            as in sofa._convention\n        dimensions : string\n            Dimensions in case of numeric or string array\n        dtype : string\n            double, string, or attribute\n        """\n        # create custom API if it not exists\n        self.protected = False\n\n        # add attribute to object (done first, because it fails for values\n        # that can not be converted)\n        try:\n            setattr(self, key, value)\n        except Exception:\n            self.protected = True\n            raise\n\n        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()\n                          for d in dimensions]\n            dimensions = "".join(dimensions)\n\n        # add user entry to custom API, if not contained in the convention\n        if not hasattr(self, "_convention") or key not in self._convention:\n            if not hasattr(self, "_custom"):\n                self._custom = {}\n\n            self._custom[key] = {\n                "flags": flags,\n                "dimensions": dimensions,\n                "type": dtype,\n                "default": None,\n                "comment": ""}\n            self._convention[key] = self._custom[key]\n\n        self.protected = True\n\n    def upgrade_convention(self, target=None, verify=\'auto\'):\n        """\n        Upgrade Sofa data to newer conventions.\n\n        Calling this with the default arguments returns a list of possible\n        conventions to which the data will be upgraded. If the data is up to\n        date the list will be empty.\n\n        Parameters\n        ----------\n        target : str, optional\n            The convention and version to which the data should be upgraded as\n            a string. For example ``\'SimpleFreeFieldHRIR_1.0\'`` would upgrade\n            the data to the SOFA-Convention `SimpleFreeFieldHRIR` version 1.0.\n            The default is ``None`` which returns a list of possible\n            conventions to which the data can be updated.\n        verify : bool, optional\n            Flag to specify if the data should be verified after the upgrade\n            using :py:func:`~Sofa.verify`. The default ``\'auto\'`` defaults to\n            ``True`` for stable conventions with versions of 1.0 or higher and\n            to ``False`` otherwise.\n\n        Returns\n        -------\n        target : list of strings\n            List with available conventions to which the data can be updated.\n            If the data is up to data, the list will be empty. `target` is only\n            returned if `target` is ``None``.\n        """\n\n        # check input ---------------------------------------------------------\n        self._reset_convention()\n\n        # get deprecations and information about Sofa object\n        _, _, deprecations, upgrade = self._verification_rules()\n        convention_current = self.GLOBAL_SOFAConventions\n        version_current = self.GLOBAL_SOFAConventionsVersion\n        sofa_version_current = self.GLOBAL_Version\n\n        # check if convention is deprecated -----------------------------------\n        is_deprecated = False\n\n        if convention_current in deprecations["GLOBAL:SOFAConventions"]:\n            is_deprecated = True\n        elif convention_current in upgrade:\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    is_deprecated = True\n                    break\n\n        # check for upgrades --------------------------------------------------\n        if is_deprecated:\n            # check if upgrade is available for this convention\n            if convention_current not in upgrade:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n\n            # check if upgrade is available for this version\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    targets = from_to[1]\n\n                    if target in targets:\n                        target_id = from_to[2]\n                    else:\n                        if target is not None:\n                            print(f"{target} is invalid.")\n\n                        upgrades = (\n                            f"{convention_current} v{version_current} "\n                            "can be upgraded to:\\n")\n                        for t in targets:\n                            t = t.split("_")\n                            upgrades += f"- {t[0]} v{t[1]}\\n"\n                        print(upgrades)\n                        return targets\n                    break\n            else:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n        else:\n            print((f"Convention {convention_current} v{version_current} "\n                   "is up to date"))\n            return\n\n        # get information to upgrade ------------------------------------------\n        upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]\n        convention_target, version_target = target.split("_")\n\n        # upgrade -------------------------------------------------------------\n        self._convention = self._load_convention(\n            convention_target, version_target)\n        sofa_version_target = self._convention["GLOBAL_Version"]["default"]\n\n        print((f"Upgrading {convention_current} v{version_current} to "\n               f"{convention_target} v{version_target} (SOFA version "\n               f"{sofa_version_current} to {sofa_version_target})"))\n\n        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n\n        # display general message\n        if upgrade["message"] is not None:\n            print(upgrade["message"])\n\n        # set default for verify\n        if verify == \'auto\':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse(\'1.0\') else False\n        if verify:\n            self.verify()\n\n    def _apply_upgrade(self, upgrade):\n        """\n        Apply an upgrade rule, used in Sofa.upgrade_convention after the target\n        convention was loaded.\n        """\n        # upgrade convention\n        keys = ["GLOBAL_SOFAConventions",\n                "GLOBAL_SOFAConventionsVersion",\n                "GLOBAL_Version",\n                "GLOBAL_DataType"]\n\n        for key in keys:\n            setattr(self, key, self._convention[key]["default"])\n\n        # move data\n        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = source.replace(".", \'_\').replace(":", "_")\n            target_sofar = move["target"].replace(".", \'_\').replace(":", "_")\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n            # nothing to move if optional data are not contained\n            if not hasattr(self, source_sofar):\n                continue\n            # get data\n            data = getattr(self, source_sofar)\n            # delete from Sofa object\n            delattr(self, source_sofar)\n            # Check move axis\n            moveaxis = upgrade["move"][source]["moveaxis"]\n            if moveaxis is not None:\n                # add dimensions if required\n                # (sofar discards trailing singular dimensions)\n                while data.ndim < np.max(moveaxis) + 1:\n                    data = data[..., None]\n                # move the axis\n                data = np.moveaxis(data, moveaxis[0], moveaxis[1])\n                move_info += f" Moving axis {moveaxis[0]} to {moveaxis[1]}."\n            # Check deprecated dimensions\n            deprecated_dimensions = \\\n                upgrade["move"][source]["deprecated_dimensions"]\n            if deprecated_dimensions is not None:\n                move_info += (\n                    f" WARNING: Dimensions {\', \'.join(deprecated_dimensions)} "\n                    "are now deprecated.")\n            # add data\n            setattr(self, target_sofar, data)\n            # print info\n            print(move_info)\n\n        if not upgrade["move"]:\n            print("- No data to move")\n\n        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = target.replace(".", \'_\').replace(":", "_")\n            # nothing to delete if optional data are not contained\n            if not hasattr(self, target_sofar):\n                continue\n            delattr(self, target_sofar)\n            print(f"- Deleting {target_sofar}.")\n\n        if not upgrade["remove"]:\n            print("- No data to remove")\n\n        # check for missing mandatory data\n        self.add_missing(True, False)\n\n    def verify(self, issue_handling="raise", mode="write"):\n        """\n        Verify a SOFA object against the SOFA standard.\n\n        This function updates the API, and checks the following\n\n        - Are all mandatory data contained? If `issue_handling` is ``"raise"``\n          missing mandatory data raises an error. Otherwise mandatory data are\n          added with their default value and a warning is given.\n        - Are the names of variables and attributes in accordance to the SOFA\n          standard?\n        - Are the data types in accordance with the SOFA standard?\n        - Are the dimensions of the variables consistent and in accordance\n          to the SOFA standard?\n        - Are the values of attributes consistent and in accordance to the\n          SOFA standard?\n\n        A detailed set of validation rules can be found at\n        https://github.com/pyfar/sofar/tree/main/sofar/verification_rules\n\n        .. note::\n            :py:func:`~verify` is automatically called when you create a new\n            SOFA object, read a SOFA file from disk, and write a SOFA file to\n            disk (using the default parameters).\n\n        The API of a SOFA object consists of four parts, that are stored\n        dictionaries in private attributes. This is required for writing data\n        with :py:func:`~sofa.write_sofa` and should usually not be manipulated\n        outside of :py:func:`~verify`\n\n        self._convention\n            The SOFA convention with default values, variable dimensions, flags\n            and comments. These data are read from the official SOFA\n            conventions contained in the SOFA Matlab/Octave API.\n        self._dimensions\n            The detected dimensions of the data inside the SOFA object.\n        self._api\n            The size of the dimensions (see py:func:`~list_dimensions`). This\n            specifies the dimensions of the data inside the SOFA object.\n        self._custom\n            Stores information of custom variables that are not defined by the\n            convention. The format is the same as in `self._convention`.\n\n        Parameters\n        ----------\n        issue_handling : str, optional\n            Defines how detected issues are handled\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n\n            The default is ``\'raise\'``.\n        mode : str, optional\n            The SOFA standard is more strict for writing data than for reading\n            data.\n\n            ``\'write\'``\n                All units (e.g. \'meter\') must be written be lower case.\n            ``\'read\'``\n                Units can contain upper case letters (e.g. \'Meter\')\n\n            The default is ``\'write\'``\n\n        Returns\n        -------\n        issues : str, None\n            Detected issues as a string. None if no issues were detected. Note\n            that this is only returned if ``issue_handling=\'return\'`` (see\n            above)\n\n        """\n        # NOTE: This function collects warnings and errors and tries to output\n        # them in a block. This makes the code slightly more complicated but\n        # is more convenient for the user and with respect to a potential\n        # future web based tool for verifying SOFA files.\n\n        # initialize warning and error messages\n        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg = "\\nWARNINGS\\n--------\\n"\n\n        # ---------------------------------------------------------------------\n        # 0. update the convention\n        self._reset_convention()\n\n        # initialize required API fields (forget dimensions of former data)\n        self.protected = False\n        self._dimensions = {}\n        self._api = {}\n        self.protected = True\n\n        # ---------------------------------------------------------------------\n        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    self.protected = False\n                    setattr(self, key, self._convention[key]["default"])\n                    self.protected = True\n\n                # prepare to raise warning\n                missing += "- " + key + "\\n"\n\n        if missing:\n            if issue_handling == "raise":\n                error_msg += ("Detected missing mandatory data "\n                              "call sofa.add_missing() to fix this):\\n")\n                error_msg += missing\n            else:\n                warning_msg += "Added mandatory data with default values:\\n"\n                warning_msg += missing\n\n        # ---------------------------------------------------------------------\n        # 2. verify data type\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # check data type\n            value = getattr(self, key)\n\n            if dtype == "attribute":\n                if not isinstance(value, str):\n                    current_error += \\\n                        f"- {key} must be string but is {type(value)}\\n"\n\n            elif dtype == "double":\n                # All variables can be of type float or int, and are converted\n                # to float when writing.\n                # sofar does not force the user to pass data as numpy arrays.\n                # We thus check for allowed instances (int, float, numpy) and\n                # specifically for the type of numpy arrays.\n                if not isinstance(\n                        value, (int, float, np.ndarray, np.number)) or \\\n                        (isinstance(value, (np.ndarray, np.number)) and\n                         value.dtype.kind not in [\'i\', \'f\']):\n                    current_error += (f"- {key} must be int or float "\n                                      f"but is {type(value)}\\n")\n\n            elif dtype == "string":\n                # multiple checks needed because sofar does not force the user\n                # to initially pass data as numpy arrays\n                if not isinstance(value, (str, np.ndarray)):\n                    current_error += (f"- {key} must be string or numpy array "\n                                      f"but is {type(value)}\\n")\n\n                if isinstance(value, np.ndarray) and not (\n                        str(value.dtype).startswith(\'<U\') or\n                        str(value.dtype).startswith(\'<S\')):\n                    current_error += (f"- {key} must be U or S "\n                                      f"but is {type(value.dtype)}\\n")\n\n            else:\n                # Could only be tested by manipulating JSON convention files\n                # (Could take different data types in the future and convert to\n                # numpy double arrays.)\n                current_error += (\n                    f"- {key}: Error in convention. Type must be "\n                    f"double, string, or attribute but is {dtype}\\n")\n\n        if current_error:\n            error_msg += "Detected data of wrong type:\\n"\n            error_msg += current_error\n\n        # if an error ocurred up to here, it has to be handled. Otherwise\n        # detecting the dimensions might fail.\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "ignore":\n                return\n\n            _, issues = self._verify_handle_issues(\n                    warning_msg, error_msg, issue_handling)\n\n            if issue_handling == "print":\n                return\n            else:  # (issue_handling == "return"):\n                return issues\n\n        # ---------------------------------------------------------------------\n        # 3. Verify names of entries\n\n        # check attributes without variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute" or \\\n                    key.count("_") == 0:\n                continue\n\n            if (key[:key.rindex("_")] not in self._convention and\n                    not key.startswith("GLOBAL_")):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += "Detected attributes with missing variables:\\n"\n            error_msg += current_error\n\n        # check number of underscores\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute":\n                continue\n\n            # the case above caught attributes with too many underscores\n            if key.count("_") == 0:\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected attribute names with too many or little underscores."\n                " Names must have the form Variable_Attribute, Data_Attribute "\n                "(one underscore), or Data_Variable_Attribute (two "\n                "underscores):\\n")\n            error_msg += current_error\n\n        # check numeric variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] == "attribute":\n                continue\n\n            if "_" in key.replace("Data_", ""):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected variable names with too many underscores."\n                "Underscores are only allowed for the variable Data:\\n")\n            error_msg += current_error\n\n',
  '                    _verify_convention_and_version)\n\n\nclass _Block():\n    """Issues of one kind."""\n\n    def __init__(self, header):\n        self.header = header\n        self.lines = []\n\n    def add(self, line):\n        """Add an issue."""\n        self.lines.append(line)\n\n    def text(self):\n        """Header and issues or an empty string."""\n        return self.header + "".join(self.lines) if self.lines else ""\n\n\nclass Sofa():\n    """Create a new SOFA object.\n\n    Parameters\n    ----------\n    convention : str\n        The name of the convention from which the SOFA file is created. See\n        :py:func:`~sofar.list_conventions`.\n    mandatory : bool, optional\n        If ``True``, only the mandatory data of the convention will be\n        returned. The default is ``False``, which returns mandatory and\n        optional data.\n    version : str, optional\n        The version of the convention as a string, e.g., ``\' 2.0\'``. The\n        default is ``\'latest\'``. Also see :py:func:`~sofar.list_conventions`.\n    verify : bool, optional\n        Verify the SOFA object by calling :py:func:`~Sofa.verify`. This helps\n        to find potential errors in the default values and is thus recommended\n        If creating a file does not work, try to call `Sofa` with\n        ``verify=False``. The default ``\'auto\'`` defaults to ``True`` for\n        stable conventions with versions of 1.0 or higher and to ``False``\n        otherwise.\n\n    Returns\n    -------\n    sofa : Sofa\n        A SOFA object filled with the default values of the convention.\n\n    Examples\n    --------\n    Create a new SOFA object with default values\n\n    .. code-block:: python\n\n        import sofar as sf\n\n        # create SOFA object\n        sofa = sf.Sofa("SimpleFreeFieldHRIR")\n\n    Add data as a list\n\n    .. code-block:: python\n\n        sofa.Data_IR = [1, 1]\n\n    Data can be entered as numbers, numpy arrays or lists. Note the following\n\n    1. Lists are converted to numpy arrays with at least two dimensions, i.e.,\n       ``sofa.Data_IR`` is converted to a numpy array of shape (1, 2)\n    2. Missing dimensions are appended when writing the SOFA object to disk,\n       i.e., ``sofa.Data_IR`` is written as an array of shape (1, 2, 1) because\n       the SOFA standard AES69 defines it as a three dimensional array\n       with the dimensions (`M: measurements`, `R: receivers`, `N: samples`)\n    3. When reading data from a SOFA file, array data is always returned as\n       numpy arrays and singleton trailing dimensions are discarded (numpy\n       default). I.e., ``sofa.Data_IR`` will again be an array of shape (1, 2)\n       after writing and reading to and from disk.\n    4. One dimensional arrays with only one element will be converted to scalar\n       values. E.g. ``sofa.Data_SamplingRate`` is stored as an array of shape\n       (1, ) inside SOFA files (according to the SOFA standard AES69) but\n       will be a scalar inside SOFA objects after reading from disk.\n\n\n    For more examples refer to the\n    `sofar and SOFA <https://pyfar-gallery.readthedocs.io/en/latest/gallery/interactive/sofar_introduction.html>`__\n    notebook in the pyfar example gallery.\n    """\n\n    # these have to be set here, because they are used in __setattr__ and\n    # Python checks if they exist upon class creation\n\n    # don\'t allow adding attributes and deleting/writing read only attributes\n    _protected = False\n    # list of read only attributes (filled upon init)\n    _read_only_attr = []\n\n    def __init__(self, convention, mandatory=False, version="latest",\n                 verify=\'auto\'):\n        """See class docstring."""\n\n        # get convention\n        if convention is not None:\n            self._convention = self._load_convention(convention, version)\n\n            # update read only attributes\n            self._update_read_only_attr()\n\n            # add attributes with default values\n            self._convention_to_sofa(mandatory)\n\n            # set default for verify\n            version = \\\n                self._convention[\'GLOBAL_SOFAConventionsVersion\'][\'default\']\n            if verify == \'auto\':\n                verify = True if parse(version) >= parse(\'1.0\') else False\n\n            # add and update the API\n            # (mandatory=False can not be verified because some conventions\n            # have default values that have optional variables as dependencies)\n            if verify and not mandatory:\n                self.verify(mode="read")\n            # warning for preliminary conventions if verification is bypassed\n            elif parse(version) < parse(\'1.0\'):\n                warnings.warn(UserWarning((\n                    f"Detected preliminary conventions version {version}. "\n                    "Upgrade data to version >= 1.0 if possible. Preliminary "\n                    "conventions might change in the future, which could "\n                    "invalidate data that was written before the changes.")),\n                    stacklevel=2)\n\n            self.protected = True\n        else:\n            verify = False\n            self._convention = {}\n\n    def __setattr__(self, name: str, value):\n        """\n        Set attribute in Sofa object.\n\n        Overloads the default ``__setattr__`` method to block setting\n        read-only data.\n        """\n        # don\'t allow new attributes to be added outside the class\n        if self.protected and not hasattr(self, name):\n            raise TypeError(f"{name} is an invalid attribute")\n\n        # don\'t allow setting read only attributes\n        if name in self._read_only_attr and self.protected:\n            raise TypeError((\n                f"{name} is a read only attribute. Iy you know what you are "\n                "doing, you can set Sofa.protected = False to write read "\n                "only data (e.g., to repair corrupted SOFA data)."))\n\n        # convert to numpy array or scalar\n        if not isinstance(value, (str, dict, np.ndarray)) \\\n                and name != "protected":\n            value = np.atleast_2d(value)\n            if value.size == 1:\n                value = value.flatten()[0]\n\n        super.__setattr__(self, name, value)\n\n    def __delattr__(self, name: str):\n        """\n        Delete attribute from Sofa object.\n\n        Overloads the default ``__delattr__`` method to block deleting\n        mandatory data.\n        """\n        # can\'t delete non existing attributes\n        if not hasattr(self, name):\n            raise TypeError(f"{name} is not an attribute")\n        # delete anything if not frozen, delete non mandatory\n        if not self.protected or \\\n                not self._mandatory(self._convention[name]["flags"]):\n            super().__delattr__(name)\n\n            # check if custom field as to be deleted\n            if hasattr(self, "_custom"):\n                if name in self._custom:\n                    self._custom.pop(name)\n                    self._convention.pop(name, None)\n        else:\n            raise TypeError(\n                f"{name} is a mandatory attribute that can not be deleted")\n\n    def __repr__(self):\n        """String representation of Sofa object."""\n        return (f"sofar.SOFA object: {self.GLOBAL_SOFAConventions} "\n                f"{self.GLOBAL_SOFAConventionsVersion}")\n\n    @property\n    def list_dimensions(self):\n        """\n        Print the dimensions of the SOFA object.\n\n        See :py:func:`~Sofa.inspect` to see the shapes of the data inside the\n        SOFA object and :py:func:`~Sofa.get_dimension` to get the size/value\n        of a specific dimensions as integer number.\n\n        The SOFA file standard defines the following dimensions that are used\n        to define the shape of the data entries:\n\n        M\n            number of measurements\n        N\n            number of samples, frequencies, SOS coefficients\n            (depending on self.GLOBAL_DataType)\n        R\n            Number of receivers or SH coefficients\n            (depending on ReceiverPosition_Type)\n        E\n            Number of emitters or SH coefficients\n            (depending on EmitterPosition_Type)\n        S\n            Maximum length of a string in a string array\n        C\n            Size of the coordinate dimension. This is always three.\n        I\n            Single dimension. This is always one.\n\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        # get verbose description for dimension N\n        if self.GLOBAL_DataType.startswith("FIR"):\n            N_verbose = "samples"\n        elif self.GLOBAL_DataType.startswith("TF"):\n            N_verbose = "frequencies"\n        elif self.GLOBAL_DataType.startswith("SOS"):\n            N_verbose = "SOS coefficients"\n        else:\n            N_verbose = "data points"\n\n        # get verbose description for dimensions R and E\n        R_verbose = "receiver spherical harmonics coefficients" if \\\n            \'harmonic\' in self.ReceiverPosition_Type else "receiver"\n        E_verbose = "emitter spherical harmonics coefficients" if \\\n            \'harmonic\' in self.EmitterPosition_Type else "emitter"\n\n        dimensions = {\n            "M": "measurements",\n            "N": N_verbose,\n            "R": R_verbose,\n            "E": E_verbose,\n            "S": "maximum string length",\n            "C": "coordinate dimensions, fixed",\n            "I": "single dimension, fixed"}\n\n        info_str = ""\n        for key, value in self._api.items():\n            dim_info = dimensions[key] if key in dimensions \\\n                else "custom dimension"\n\n            info_str += f"{key} = {value} {dim_info}"\n\n            if dim_info != "custom ":\n                for key2, value2 in self._convention.items():\n                    dim = value2["dimensions"]\n                    if dim is not None and key.lower() in dim:\n                        info_str += \\\n                            f" (set by {key2} of dimension {dim.upper()})"\n                        break\n\n            info_str += "\\n"\n\n        print(info_str)\n\n    def get_dimension(self, dimension):\n        """\n        Get size of a SOFA dimension.\n\n        SOFA dimensions specify the shape of the data contained in a SOFA\n        object. For a list of all dimensions see :py:func:`~list_dimensions`.\n\n        Parameters\n        ----------\n        dimension : str\n            The dimension as a string, e.g., ``\'N\'``.\n\n        Returns\n        -------\n        size : int\n            the size of the queried dimension.\n        """\n\n        # Check if the dimensions can be updated\n        self._update_dimensions()\n\n        if dimension not in self._api:\n            raise ValueError((\n                f"{dimension} is not a valid dimension. "\n                "See Sofa.list_dimensions for a list of valid dimensions."))\n\n        return self._api[dimension]\n\n    def _update_dimensions(self):\n        """\n        Call verify and raise an error if the dimensions could not be updated.\n\n        used in Sofa.list_dimensions and Sofa.get_dimension\n        """\n\n        issues = self.verify(issue_handling="return")\n        if issues is not None and ("data of wrong type" in issues or\n                                   "variables of wrong shape" in issues or\n                                   not hasattr(self, "_api")):\n            raise ValueError(("Dimensions can not be shown because variables "\n                              "of wrong type or shape were detected. "\n                              "Call Sofa.verify() for more information."))\n\n    def info(self, info="all"):\n        """\n        Print information about the convention of a SOFA object.\n\n        Prints the variable type (attribute, double, string), shape, flags\n        (mandatory, read only) and comment (if any) for each or selected\n        entries.\n\n        Parameters\n        ----------\n        info : str\n            Specifies the kind of information that is printed:\n\n            ``\'all\'`` ``\'mandatory\'`` ``\'optional\'`` ``\'read only\'`` ``\'data\'``\n                Print the name, type, shape, and flags and comment for all or\n                selected entries of the SOFA object. ``\'data\'`` does not show\n                entries of type attribute.\n            key\n                If key is the name of an object attribute, all information for\n                attribute will be printed.\n        """\n\n        # warn for upcoming deprecation\n        warnings.warn((\n            \'Sofa.info() will be deprecated in sofar 1.3.0 The conventions are\'\n            \' now documented at \'\n            \'https://sofar.readthedocs.io/en/stable/resources/conventions.html\'),\n            UserWarning, stacklevel=1)\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        if not hasattr(self, "_convention"):\n            self._reset_convention()\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        if info in ["all", "mandatory", "optional", "read only", "data"]:\n\n            info_str += f"showing {info} entries : type (shape), flags\\n\\n"\n\n            for key in keys:\n\n                # check if field should be skipped\n                flags = self._convention[key]["flags"]\n                if (not self._mandatory(flags) and info == "mandatory") \\\n                        or \\\n                        (self._mandatory(flags) and info == "optional") \\\n                        or \\\n                        (not self._read_only(flags) and info == "read only") \\\n                        or \\\n                        (self._convention[key][\'type\'] == "attribute" and\n                         info == "data"):\n                    continue\n\n                info_str += f"{key} : {self._convention[key][\'type\']}"\n\n                if self._convention[key][\'dimensions\']:\n                    info_str += \\\n                        f" ({self._convention[key][\'dimensions\'].upper()})"\n\n                if self._mandatory(flags):\n                    info_str += ", mandatory"\n                else:\n                    info_str += ", optional"\n                if self._read_only(flags):\n                    info_str += ", read only"\n\n                if self._convention[key][\'comment\']:\n                    info_str += f"\\n    {self._convention[key][\'comment\']}\\n"\n                else:\n                    info_str += "\\n"\n\n        elif info in keys:\n\n            for key in [k for k in keys if info in k]:\n                comment = str(self._convention[key][\'comment\'])\n\n                info_str += (\n                    f"{key}\\n"\n                    f"    type: {self._convention[key][\'type\']}\\n"\n                    f"    mandatory: "\n                    f"{self._mandatory(self._convention[key][\'flags\'])}\\n"\n                    f"    read only: "\n                    f"{self._read_only(self._convention[key][\'flags\'])}\\n"\n                    f"    default: {self._convention[key][\'default\']}\\n"\n                    f"    shape: "\n                    f"{str(self._convention[key][\'dimensions\']).upper()}\\n"\n                    f"    comment: {comment}\\n")\n        else:\n            raise ValueError(f"info=\'{info}\' is invalid")\n\n        print(info_str)\n\n    def inspect(self, file=None, issue_handling="print"):\n        """\n        Get information about data inside a SOFA object.\n\n        Prints the values of all attributes and variables with six or less\n        entries and the shapes and type of all numeric and string variables.\n        When printing the values of arrays, single dimensions are discarded for\n        easy of display, i.e., an array of shape (1, 3, 2) will be displayed as\n        an array of shape (3, 2).\n\n        Parameters\n        ----------\n        file : str\n            Full path of a file under which the information is to be stored in\n            plain text. The default ``None`` only print the information to the\n            console.\n        issue_handling : str, optional\n            Defines how issues detected during verification of the SOFA object\n            are handled (see :py:func:`~sofar.sofar.Sofa.verify`)\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n            ``\'ignore\'``\n                Issues are ignored, i.e., not raised, printed, or returned.\n\n            The default is ``\'print\'``.\n        """\n\n        # update the private attribute `_convention` to make sure the required\n        # meta data is in place\n        self.verify(issue_handling=issue_handling)\n\n        # list of all attributes\n        keys = [k for k in self.__dict__.keys() if not k.startswith("_")]\n\n        # start printing the information\n        info_str = (\n            f"{self.GLOBAL_SOFAConventions} "\n            F"{self.GLOBAL_SOFAConventionsVersion} "\n            f"(SOFA version {self.GLOBAL_Version})\\n")\n        info_str += "-" * len(info_str) + "\\n"\n\n        for key in keys:\n\n            info_str += key + " : "\n            value = getattr(self, key)\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n    def add_missing(self, mandatory=True, optional=True, verbose=True):\n        """\n        Add missing data with default values.\n\n        Data might be missing in SOFA objects if the creator did not include it\n        or if a new data was suggested for a newer version of a SOFA\n        convention. Use this function to add the data with its default values.\n\n        mandatory : Bool\n            Add missing mandatory data. The default is ``True``.\n        optional : Bool\n            Add missing optional data. The default is ``True``.\n        verbose : Bool\n            Print the information about added data to the console. The default\n            is ``True``.\n        """\n\n        # initialize\n        self._reset_convention()\n        added = "Added the following missing data with their default values:\\n"\n\n        # current data\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        self.protected = False\n\n        # loop data in convention\n        for key in self._convention.keys():\n            is_mandatory = self._mandatory(self._convention[key]["flags"])\n            add_data = (is_mandatory and mandatory) or \\\n                (not is_mandatory and optional)\n            # add with default\n            if key not in keys and add_data:\n                setattr(self, key, self._convention[key]["default"])\n                added += f"- {key} "\n                added += f"({\'mandatory\' if is_mandatory else \'optional\'})\\n"\n\n        self.protected = True\n\n        if verbose:\n            if "-" in added:\n                print(added)\n            else:\n                print("All mandatory data contained.")\n\n    def add_variable(self, name, value, dtype, dimensions):\n        """\n        Add custom variable to the SOFA object, i.e., numeric or string arrays.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new variable.\n        value : any\n            value to be added (see `dtype` for restrictions).\n        dtype : str\n            Type of the entry to be added in netCDF style:\n\n            ``\'double\'``\n                Use this to store numeric data that can be provided as number\n                list or numpy array.\n            ``\'string\'``\n                Use this to store string variables as numpy string arrays of\n                type ``\'U\'`` or ``\'S\'``.\n\n        dimensions : str\n            The shape of the new entry as a string. See\n            :py:func:`~Sofa.list_dimensions`.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add numeric data\n            sofa.add_variable("Temperature", 25.1, "double", "MI")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_entry(\n                "GLOBAL_DateMeasured", "8.08.2021", "attribute", None)\n            sofa.add_entry(\n                "Temperature_Units", "degree Celsius", "attribute", None)\n\n            # add a string data\n            sofa.add_variable(\n                "Comment", "Measured with wind screen", "string", "MS")\n        """\n\n        self._add_entry(name, value, dtype, dimensions)\n\n    def add_attribute(self, name, value):\n        """\n        Add custom attribute to the SOFA object.\n\n        Parameters\n        ----------\n        name : str\n            Name of the new attribute.\n        value : str\n            value to be added.\n\n        Examples\n        --------\n        .. code-block:: python\n\n            import sofar as sf\n            sofa = sf.Sofa("GeneralTF")\n\n            # add GLOBAL and Variable attribute\n            sofa.add_attribute("GLOBAL_DateMeasured", "8.08.2021")\n            sofa.add_attribute("Data_Real_Units", "Pascal")\n\n        """\n\n        self._add_entry(name, value, \'attribute\', None)\n\n    def delete(self, name):\n        """\n        Delete variable or attribute from SOFA object.\n\n        Note that mandatory data can not be deleted. Check the\n        `sofar documentation\n        <https://sofar.readthedocs.io/en/stable/resources/conventions.html>`_\n        for a complete list of optional variables and attributes.\n\n        Parameters\n        ----------\n        name : str\n            Name of the variable or attribute to be deleted\n        """\n        delattr(self, name)\n\n    @property\n    def protected(self):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        return self._protected\n\n    @protected.setter\n    def protected(self, value: bool):\n        """\n        If Sofa.protected is ``True``, read only data can not be changed. Only\n        change this to ``False`` if you know what you are doing, e.g., if you\n        need to repair corrupted SOFA data.\n        """\n        if not isinstance(value, bool):\n            raise ValueError("Sofa.protected can only be True or False")\n        self._protected = value\n\n    def _add_entry(self, name, value, dtype, dimensions):\n        """\n        Add custom data to a SOFA object. See add_variable and add_attribute\n        for more information.\n        """\n\n        # check input\n        if hasattr(self, name):\n            raise ValueError(f"Entry {name} already exists")\n        if dtype not in ["attribute", "double", "string"]:\n            raise ValueError(\n                f"dtype is {dtype} but must be attribute, double, or string")\n        if "_" in name and dtype != "attribute":\n            raise ValueError(("underscores \'_\' in the name are only "\n                              "allowed for attributes"))\n        if dtype == "attribute":\n            if name.count("_") != 1 or \\\n                    (name.startswith("Data_") and (name.count("_") == 0 or\n                                                   name.count("_") > 2)):\n                raise ValueError((f"The name of {name} must have the "\n                                  "form VariableName_AttributeName"))\n            if not name.startswith("GLOBAL_") and \\\n                    name[:name.rindex("_")] not in self._convention:\n                raise ValueError((f"Adding Attribute {name} requires "\n                                  f"variable {name[:name.rindex(\'_\')]}"))\n        if dtype != "attribute" and ("." in name or "/" in name):\n            raise ValueError(("points \'.\' and slashes \'/\' are only allowed in "\n                              "the names of attributes"))\n        if dimensions is None and dtype != "attribute":\n            raise ValueError(("dimensions must be provided for entries of "\n                              "dtype double and string"))\n        if dimensions is not None:\n            dimensions = dimensions.upper()\n            for dimension in dimensions:\n                if dimension not in "ERMNCIS":\n                    warnings.warn(\n                        f"Added custom dimension {dimensions} to SOFA object",\n                        stacklevel=2)\n\n        # add attribute to class\n        self._add_custom_api_entry(name, value, None, dimensions, dtype)\n\n    def _add_custom_api_entry(self, key, value, flags, dimensions, dtype):\n        """\n        Add custom entry to the sofa._convention and permanently save it in\n        sofa._custom.\n\n        Parameters\n        ----------\n        key : str\n            name of the entry\n        value: any\n            Value of the entry\n        flags, dimensions, dtype : any\n            as in sofa._convention\n        dimensions : string\n            Dimensions in case of numeric or string array\n        dtype : string\n            double, string, or attribute\n        """\n        # create custom API if it not exists\n        self.protected = False\n\n        # add attribute to object (done first, because it fails for values\n        # that can not be converted)\n        try:\n            setattr(self, key, value)\n        except Exception:\n            self.protected = True\n            raise\n\n        # lower case letters to indicate custom dimensions\n        if dimensions is not None:\n            dimensions = [d.upper() if d.upper() in "ERMNCIS" else d.lower()\n                          for d in dimensions]\n            dimensions = "".join(dimensions)\n\n        # add user entry to custom API, if not contained in the convention\n        if not hasattr(self, "_convention") or key not in self._convention:\n            if not hasattr(self, "_custom"):\n                self._custom = {}\n\n            self._custom[key] = {\n                "flags": flags,\n                "dimensions": dimensions,\n                "type": dtype,\n                "default": None,\n                "comment": ""}\n            self._convention[key] = self._custom[key]\n\n        self.protected = True\n\n    def upgrade_convention(self, target=None, verify=\'auto\'):\n        """\n        Upgrade Sofa data to newer conventions.\n\n        Calling this with the default arguments returns a list of possible\n        conventions to which the data will be upgraded. If the data is up to\n        date the list will be empty.\n\n        Parameters\n        ----------\n        target : str, optional\n            The convention and version to which the data should be upgraded as\n            a string. For example ``\'SimpleFreeFieldHRIR_1.0\'`` would upgrade\n            the data to the SOFA-Convention `SimpleFreeFieldHRIR` version 1.0.\n            The default is ``None`` which returns a list of possible\n            conventions to which the data can be updated.\n        verify : bool, optional\n            Flag to specify if the data should be verified after the upgrade\n            using :py:func:`~Sofa.verify`. The default ``\'auto\'`` defaults to\n            ``True`` for stable conventions with versions of 1.0 or higher and\n            to ``False`` otherwise.\n\n        Returns\n        -------\n        target : list of strings\n            List with available conventions to which the data can be updated.\n            If the data is up to data, the list will be empty. `target` is only\n            returned if `target` is ``None``.\n        """\n\n        # check input ---------------------------------------------------------\n        self._reset_convention()\n\n        # get deprecations and information about Sofa object\n        _, _, deprecations, upgrade = self._verification_rules()\n        convention_current = self.GLOBAL_SOFAConventions\n        version_current = self.GLOBAL_SOFAConventionsVersion\n        sofa_version_current = self.GLOBAL_Version\n\n        # check if convention is deprecated -----------------------------------\n        is_deprecated = False\n\n        if convention_current in deprecations["GLOBAL:SOFAConventions"]:\n            is_deprecated = True\n        elif convention_current in upgrade:\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    is_deprecated = True\n                    break\n\n        # check for upgrades --------------------------------------------------\n        if is_deprecated:\n            # check if upgrade is available for this convention\n            if convention_current not in upgrade:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n\n            # check if upgrade is available for this version\n            for from_to in upgrade[convention_current]["from_to"]:\n                if version_current in from_to[0]:\n                    targets = from_to[1]\n\n                    if target in targets:\n                        target_id = from_to[2]\n                    else:\n                        if target is not None:\n                            print(f"{target} is invalid.")\n\n                        upgrades = (\n                            f"{convention_current} v{version_current} "\n                            "can be upgraded to:\\n")\n                        for t in targets:\n                            t = t.split("_")\n                            upgrades += f"- {t[0]} v{t[1]}\\n"\n                        print(upgrades)\n                        return targets\n                    break\n            else:\n                print((f"Convention {convention_current} v{version_current} is"\n                       " outdated but is missing upgrade rules"))\n                return\n        else:\n            print((f"Convention {convention_current} v{version_current} "\n                   "is up to date"))\n            return\n\n        # get information to upgrade ------------------------------------------\n        upgrade = upgrade[self.GLOBAL_SOFAConventions][target_id]\n        convention_target, version_target = target.split("_")\n\n        # upgrade -------------------------------------------------------------\n        self._convention = self._load_convention(\n            convention_target, version_target)\n        sofa_version_target = self._convention["GLOBAL_Version"]["default"]\n\n        print((f"Upgrading {convention_current} v{version_current} to "\n               f"{convention_target} v{version_target} (SOFA version "\n               f"{sofa_version_current} to {sofa_version_target})"))\n\n        self.protected = False\n        try:\n            self._apply_upgrade(upgrade)\n        finally:\n            self.protected = True\n\n        # display general message\n        if upgrade["message"] is not None:\n            print(upgrade["message"])\n\n        # set default for verify\n        if verify == \'auto\':\n            version = self.GLOBAL_SOFAConventionsVersion\n            verify = True if parse(version) >= parse(\'1.0\') else False\n        if verify:\n            self.verify()\n\n    def _apply_upgrade(self, upgrade):\n        """\n        Apply an upgrade rule, used in Sofa.upgrade_convention after the target\n        convention was loaded.\n        """\n        # upgrade convention\n        keys = ["GLOBAL_SOFAConventions",\n                "GLOBAL_SOFAConventionsVersion",\n                "GLOBAL_Version",\n                "GLOBAL_DataType"]\n\n        for key in keys:\n            setattr(self, key, self._convention[key]["default"])\n\n        # move data\n        for source, move in upgrade["move"].items():\n            # get info\n            source_sofar = source.replace(".", \'_\').replace(":", "_")\n            target_sofar = move["target"].replace(".", \'_\').replace(":", "_")\n            move_info = f"- Moving {source_sofar} to {target_sofar}."\n            # nothing to move if optional data are not contained\n            if not hasattr(self, source_sofar):\n                continue\n            # get data\n            data = getattr(self, source_sofar)\n            # delete from Sofa object\n            delattr(self, source_sofar)\n            # Check move axis\n            moveaxis = upgrade["move"][source]["moveaxis"]\n            if moveaxis is not None:\n                # add dimensions if required\n                # (sofar discards trailing singular dimensions)\n                while data.ndim < np.max(moveaxis) + 1:\n                    data = data[..., None]\n                # move the axis\n                data = np.moveaxis(data, moveaxis[0], moveaxis[1])\n                move_info += f" Moving axis {moveaxis[0]} to {moveaxis[1]}."\n            # Check deprecated dimensions\n            deprecated_dimensions = \\\n                upgrade["move"][source]["deprecated_dimensions"]\n            if deprecated_dimensions is not None:\n                move_info += (\n                    f" WARNING: Dimensions {\', \'.join(deprecated_dimensions)} "\n                    "are now deprecated.")\n            # add data\n            setattr(self, target_sofar, data)\n            # print info\n            print(move_info)\n\n        if not upgrade["move"]:\n            print("- No data to move")\n\n        # remove data\n        for target in upgrade["remove"]:\n            target_sofar = target.replace(".", \'_\').replace(":", "_")\n            # nothing to delete if optional data are not contained\n            if not hasattr(self, target_sofar):\n                continue\n            delattr(self, target_sofar)\n            print(f"- Deleting {target_sofar}.")\n\n        if not upgrade["remove"]:\n            print("- No data to remove")\n\n        # check for missing mandatory data\n        self.add_missing(True, False)\n\n    def verify(self, issue_handling="raise", mode="write"):\n        """\n        Verify a SOFA object against the SOFA standard.\n\n        This function updates the API, and checks the following\n\n        - Are all mandatory data contained? If `issue_handling` is ``"raise"``\n          missing mandatory data raises an error. Otherwise mandatory data are\n          added with their default value and a warning is given.\n        - Are the names of variables and attributes in accordance to the SOFA\n          standard?\n        - Are the data types in accordance with the SOFA standard?\n        - Are the dimensions of the variables consistent and in accordance\n          to the SOFA standard?\n        - Are the values of attributes consistent and in accordance to the\n          SOFA standard?\n\n        A detailed set of validation rules can be found at\n        https://github.com/pyfar/sofar/tree/main/sofar/verification_rules\n\n        .. note::\n            :py:func:`~verify` is automatically called when you create a new\n            SOFA object, read a SOFA file from disk, and write a SOFA file to\n            disk (using the default parameters).\n\n        The API of a SOFA object consists of four parts, that are stored\n        dictionaries in private attributes. This is required for writing data\n        with :py:func:`~sofa.write_sofa` and should usually not be manipulated\n        outside of :py:func:`~verify`\n\n        self._convention\n            The SOFA convention with default values, variable dimensions, flags\n            and comments. These data are read from the official SOFA\n            conventions contained in the SOFA Matlab/Octave API.\n        self._dimensions\n            The detected dimensions of the data inside the SOFA object.\n        self._api\n            The size of the dimensions (see py:func:`~list_dimensions`). This\n            specifies the dimensions of the data inside the SOFA object.\n        self._custom\n            Stores information of custom variables that are not defined by the\n            convention. The format is the same as in `self._convention`.\n\n        Parameters\n        ----------\n        issue_handling : str, optional\n            Defines how detected issues are handled\n\n            ``\'raise\'``\n                Warnings and errors are raised if issues are detected\n            ``\'print\'``\n                Issues are printed without raising warnings and errors\n            ``\'return\'``\n                Issues are returned as string but neither raised nor printed\n\n            The default is ``\'raise\'``.\n        mode : str, optional\n            The SOFA standard is more strict for writing data than for reading\n            data.\n\n            ``\'write\'``\n                All units (e.g. \'meter\') must be written be lower case.\n            ``\'read\'``\n                Units can contain upper case letters (e.g. \'Meter\')\n\n            The default is ``\'write\'``\n\n        Returns\n        -------\n        issues : str, None\n            Detected issues as a string. None if no issues were detected. Note\n            that this is only returned if ``issue_handling=\'return\'`` (see\n            above)\n\n        """\n        # NOTE: This function collects warnings and errors and tries to output\n        # them in a block. This makes the code slightly more complicated but\n        # is more convenient for the user and with respect to a potential\n        # future web based tool for verifying SOFA files.\n\n        # initialize warning and error messages\n        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg = "\\nWARNINGS\\n--------\\n"\n\n        # ---------------------------------------------------------------------\n        # 0. update the convention\n        self._reset_convention()\n\n        # initialize required API fields (forget dimensions of former data)\n        self.protected = False\n        self._dimensions = {}\n        self._api = {}\n        self.protected = True\n\n        # ---------------------------------------------------------------------\n        # 1. check if the mandatory attributes are contained\n        missing = ""\n        keys = [key for key in self.__dict__.keys() if not key.startswith("_")]\n\n        for key in self._convention.keys():\n            if self._mandatory(self._convention[key]["flags"]) \\\n                    and key not in keys:\n\n                if issue_handling != "raise":\n                    # add missing data with default value\n                    self.protected = False\n                    setattr(self, key, self._convention[key]["default"])\n                    self.protected = True\n\n                # prepare to raise warning\n                missing += "- " + key + "\\n"\n\n        if missing:\n            if issue_handling == "raise":\n                error_msg += ("Detected missing mandatory data "\n                              "call sofa.add_missing() to fix this):\\n")\n                error_msg += missing\n            else:\n                warning_msg += "Added mandatory data with default values:\\n"\n                warning_msg += missing\n\n        # ---------------------------------------------------------------------\n        # 2. verify data type\n        current_error = ""\n        for key in keys:\n\n            # handle dimensions\n            dimensions = self._convention[key]["dimensions"]\n            dtype = self._convention[key]["type"]\n\n            # check data type\n            value = getattr(self, key)\n\n            if dtype == "attribute":\n                if not isinstance(value, str):\n                    current_error += \\\n                        f"- {key} must be string but is {type(value)}\\n"\n\n            elif dtype == "double":\n                # All variables can be of type float or int, and are converted\n                # to float when writing.\n                # sofar does not force the user to pass data as numpy arrays.\n                # We thus check for allowed instances (int, float, numpy) and\n                # specifically for the type of numpy arrays.\n                if not isinstance(\n                        value, (int, float, np.ndarray, np.number)) or \\\n                        (isinstance(value, (np.ndarray, np.number)) and\n                         value.dtype.kind not in [\'i\', \'f\']):\n                    current_error += (f"- {key} must be int or float "\n                                      f"but is {type(value)}\\n")\n\n            elif dtype == "string":\n                # multiple checks needed because sofar does not force the user\n                # to initially pass data as numpy arrays\n                if not isinstance(value, (str, np.ndarray)):\n                    current_error += (f"- {key} must be string or numpy array "\n                                      f"but is {type(value)}\\n")\n\n                if isinstance(value, np.ndarray) and not (\n                        str(value.dtype).startswith(\'<U\') or\n                        str(value.dtype).startswith(\'<S\')):\n                    current_error += (f"- {key} must be U or S "\n                                      f"but is {type(value.dtype)}\\n")\n\n            else:\n                # Could only be tested by manipulating JSON convention files\n                # (Could take different data types in the future and convert to\n                # numpy double arrays.)\n                current_error += (\n                    f"- {key}: Error in convention. Type must be "\n                    f"double, string, or attribute but is {dtype}\\n")\n\n        if current_error:\n            error_msg += "Detected data of wrong type:\\n"\n            error_msg += current_error\n\n        # if an error ocurred up to here, it has to be handled. Otherwise\n        # detecting the dimensions might fail.\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "ignore":\n                return\n\n            _, issues = self._verify_handle_issues(\n                    warning_msg, error_msg, issue_handling)\n\n            if issue_handling == "print":\n                return\n            else:  # (issue_handling == "return"):\n                return issues\n\n        # ---------------------------------------------------------------------\n        # 3. Verify names of entries\n\n        # check attributes without variables\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute" or \\\n                    key.count("_") == 0:\n                continue\n\n            if (key[:key.rindex("_")] not in self._convention and\n                    not key.startswith("GLOBAL_")):\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += "Detected attributes with missing variables:\\n"\n            error_msg += current_error\n\n        # check number of underscores\n        current_error = ""\n        for key in keys:\n\n            if self._convention[key]["type"] != "attribute":\n                continue\n\n            # the case above caught attributes with too many underscores\n            if key.count("_") == 0:\n                current_error += "- " + key + "\\n"\n\n        if current_error:\n            error_msg += (\n                "Detected attribute names with too many or little underscores."\n                " Names must have the form Variable_Attribute, Data_Attribute "\n                "(one underscore), or Data_Variable_Attribute (two "\n                "underscores):\\n")\n            error_msg += current_error\n\n        # check numeric variables\n        block = _Block(\n            "Detected variable names with too many underscores."\n            "Underscores are only allowed for the variable Data:\\n")\n        for key in keys:\n\n            if self._convention[key]["type"] == "attribute":\n                continue\n\n            if "_" in key.replace("Data_", ""):\n                block.add("- " + key + "\\n")\n\n        error_msg += block.text()\n\n'))
r("iz-issue-constants", (SO, 'from .utils import (_nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n\n',
  'from .utils import (_nd_newaxis, _atleast_nd, _get_conventions,\n                    _verify_convention_and_version)\n\n\n_ERRORS = "\\nERRORS\\n------\\n"\n_WARNINGS = "\\nWARNINGS\\n--------\\n"\n\n'), (SO, '\n        # initialize warning and error messages\n        error_msg = "\\nERRORS\\n------\\n"\n        warning_msg = "\\nWARNINGS\\n--------\\n"\n\n',
  '\n        # initialize warning and error messages\n        error_msg = _ERRORS\n        warning_msg = _WARNINGS\n\n'), (SO, '        # if an error ocurred up to here, it has to be handled. Otherwise\n        # detecting the dimensions might fail.\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "ignore":\n',
  '        # if an error ocurred up to here, it has to be handled. Otherwise\n        # detecting the dimensions might fail.\n        if error_msg != _ERRORS:\n            if issue_handling == "ignore":\n'), (SO, '\n        # handle warnings\n        if warning_msg != "\\nWARNINGS\\n--------\\n":\n            if issue_handling == "raise":\n',
  '\n        # handle warnings\n        if warning_msg != _WARNINGS:\n            if issue_handling == "raise":\n'), (SO, '\n        # handle errors\n        if error_msg != "\\nERRORS\\n------\\n":\n            if issue_handling == "raise":\n',
  '\n        # handle errors\n        if error_msg != _ERRORS:\n            if issue_handling == "raise":\n'))
r("iz-describe-entry", (SO, '        for key in keys:\n\n            info_str += key + " : "\n            value = getattr(self, key)\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n',
  '        for key in keys:\n            info_str += f"{key} : {self._describe(key)}"\n\n        # write to text file\n        if file is not None:\n            with open(file, \'w\', encoding=\'utf-8\') as f_id:\n                f_id.write(info_str + "\\n")\n\n        # output to console\n        print(info_str)\n\n    def _describe(self, key):\n        """Describe the value of an entry for Sofa.inspect."""\n        if True:\n            value = getattr(self, key)\n            info_str = ""\n\n            # information for attributes and scalars\n            if self._convention[key]["type"] == "attribute" or value.size == 1:\n                info_str += str(value) + "\\n"\n            # information for variables\n            else:\n                # get shape and dimension (unknown if they could not be verified)\n                shape = value.shape\n                dimension = self._dimensions.get(key, "?" * len(shape))\n\n                # pad shape if required (trailing single dimensions are\n                # discarded following the numpy default)\n                while len(shape) < len(dimension):\n                    shape += (1, )\n\n                # make verbose shape, e.g., \'(M=100, R=2, N=128, \'\n                shape_verbose = "("\n                for s, d in zip(shape, dimension):\n                    shape_verbose += f"{d}={s}, "\n\n                # add shape information\n                info_str += shape_verbose[:-2] + ")\\n"\n                # add value information if not too much\n                if value.size < 7:\n                    info_str += "  " + \\\n                        str(np.squeeze(value)).replace("\\n", "\\n  ") + "\\n"\n\n        return info_str\n\n'))
r("iz-missing-generator", (SO, '        self.protected = False\n\n        # loop data in convention\n        for key in self._convention.keys():\n            is_mandatory = self._mandatory(self._convention[key]["flags"])\n            add_data = (is_mandatory and mandatory) or \\\n                (not is_mandatory and optional)\n            # add with default\n            if key not in keys and add_data:\n                setattr(self, key, self._convention[key]["default"])\n                added += f"- {key} "\n                added += f"({\'mandatory\' if is_mandatory else \'optional\'})\\n"\n\n',
  '        self.protected = False\n\n        # add with default\n        for key, kind in self._missing(keys, mandatory, optional):\n            setattr(self, key, self._convention[key]["default"])\n            added += f"- {key} ({kind})\\n"\n\n'), (SO, '            else:\n                print("All mandatory data contained.")\n\n',
  '            else:\n                print("All mandatory data contained.")\n\n    def _missing(self, keys, mandatory, optional):\n        """Yield name and kind of data that are missing."""\n        for key, entry in self._convention.items():\n            if key in keys:\n                continue\n            if self._mandatory(entry["flags"]):\n                if mandatory:\n                    yield key, "mandatory"\n            elif optional:\n                yield key, "optional"\n\n'))
r("iz-read-parts", (W, '        # load global attributes\n        for attr in file.ncattrs():\n\n            value = getattr(file, attr)\n            all_attr.append(f"GLOBAL_{attr}")\n\n            if not hasattr(sofa, f"GLOBAL_{attr}"):\n                sofa._add_custom_api_entry(\n                    f"GLOBAL_{attr}", value, None, None, "attribute")\n                custom.append(f"GLOBAL_{attr}")\n                sofa.protected = False\n            else:\n                setattr(sofa, f"GLOBAL_{attr}", value)\n\n',
  '        # load global attributes\n        for attr in file.ncattrs():\n            _load_entry(sofa, f"GLOBAL_{attr}", getattr(file, attr), None,\n                        "attribute", all_attr, custom)\n\n'), (W, '        for var in file.variables.keys():\n\n            value = _format_value_from_netcdf(file[var][:], var)\n            all_attr.append(var.replace(".", "_"))\n\n            if hasattr(sofa, var.replace(".", "_")):\n                setattr(sofa, var.replace(".", "_"), value)\n            else:\n                dimensions = "".join(list(file[var].dimensions))\n                # SOFA only uses dtypes \'double\' and \'S1\' but netCDF has more\n                dtype = "string" if file[var].datatype == "S1" else "double"\n                sofa._add_custom_api_entry(var.replace(".", "_"), value, None,\n                                           dimensions, dtype)\n                custom.append(var.replace(".", "_"))\n                sofa.protected = False\n\n',
  '        for var in file.variables.keys():\n\n            name = var.replace(".", "_")\n            # SOFA only uses dtypes \'double\' and \'S1\' but netCDF has more\n            _load_entry(\n                sofa, name, _format_value_from_netcdf(file[var][:], var),\n                "".join(list(file[var].dimensions)),\n                "string" if file[var].datatype == "S1" else "double",\n                all_attr, custom)\n\n'), (W, '            for attr in [a for a in file[var].ncattrs() if a not in skip]:\n\n                value = getattr(file[var], attr)\n                all_attr.append(var.replace(".", "_") + "_" + attr)\n\n                if not hasattr(sofa, var.replace(".", "_") + "_" + attr):\n                    sofa._add_custom_api_entry(\n                        var.replace(".", "_") + "_" + attr, value, None,\n                        None, "attribute")\n                    custom.append(var.replace(".", "_") + "_" + attr)\n                    sofa.protected = False\n                else:\n                    setattr(sofa, var.replace(".", "_") + "_" + attr, value)\n\n',
  '            for attr in [a for a in file[var].ncattrs() if a not in skip]:\n\n                _load_entry(sofa, f"{name}_{attr}", getattr(file[var], attr),\n                            None, "attribute", all_attr, custom)\n\n'), (W, '\n    return sofa\n\n',
  '\n    return sofa\n\n\ndef _load_entry(sofa, name, value, dimensions, dtype, names, custom):\n    """Store an entry of a file in a SOFA object."""\n    names.append(name)\n    if hasattr(sofa, name):\n        setattr(sofa, name, value)\n        return\n    sofa._add_custom_api_entry(name, value, None, dimensions, dtype)\n    custom.append(name)\n    sofa.protected = False\n\n'))
r("iz-write-parts", (W, '    # open new NETCDF4 file for writing\n    with Dataset(filename, "w", format="NETCDF4") as file:\n\n        # write dimensions\n        for dim in sofa._api:\n            file.createDimension(dim, sofa._api[dim])\n\n        # write global attributes\n        keys = [key for key in all_keys if key.startswith("GLOBAL_")]\n        for key in keys:\n            setattr(file, key[7:], str(getattr(sofa, key)))\n\n',
  '    # open new NETCDF4 file for writing\n    with Dataset(filename, "w", format="NETCDF4") as file:\n        _write_header(file, sofa, all_keys)\n\n'), (W, '                setattr(tmp_var, sub_key[len(key)+1:],\n                        str(getattr(sofa, sub_key)))\n\n',
  '                setattr(tmp_var, sub_key[len(key)+1:],\n                        str(getattr(sofa, sub_key)))\n\n\ndef _write_header(file, sofa, keys):\n    """Write dimensions and global attributes."""\n    for dim, size in sofa._api.items():\n        file.createDimension(dim, size)\n    for key in filter(lambda k: k.startswith("GLOBAL_"), keys):\n        file.setncattr(key[len("GLOBAL_"):], str(getattr(sofa, key)))\n\n'))
r("iz-update-parts", (UC, '            data = requests.get(url)\n            data.raise_for_status()\n            # remove windows style line breaks and trailing tabs\n            data = data.content.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")\n\n',
  '            data = requests.get(url)\n            data.raise_for_status()\n            data = _normalize(data.content)\n\n'), (UC, '            if is_standardized and os.path.isfile(standardized_csv):\n                # check for update of a standardized convention\n                with open(standardized_csv, "rb") as file:\n                    data_current = b"".join(file.readlines())\n                    data_current = data_current.replace(\n                        b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")\n                if data_current != data:\n                    updated = True\n',
  '            if is_standardized and os.path.isfile(standardized_csv):\n                # check for update of a standardized convention\n                if _content(standardized_csv) != data:\n                    updated = True\n'), (UC, '        else:\n            print("... conventions already up to date.")\n\n',
  '        else:\n            print("... conventions already up to date.")\n\n\ndef _normalize(data):\n    """Remove windows style line breaks and trailing tabs."""\n    return data.replace(b"\\r\\n", b"\\n").replace(b"\\t\\n", b"\\n")\n\n\ndef _content(path):\n    """Get the normalized content of a file."""\n    with open(path, "rb") as file:\n        return _normalize(file.read())\n\n'))

# ---- further idioms
r("jx-load-json", (SO, '''        with open(os.path.join(base, "rules.json"), "r") as file:
            rules = json.load(file)
        with open(os.path.join(base, "unit_aliases.json"), "r") as file:
            unit_aliases = json.load(file)
        with open(os.path.join(base, "deprecations.json"), "r") as file:
            deprecations = json.load(file)
        with open(os.path.join(base, "upgrade.json"), "r") as file:
            upgrade = json.load(file)

        return rules, unit_aliases, deprecations, upgrade
''', '''        def load_json(name):
            with open(os.path.join(base, f"{name}.json"), "r") as file:
                return json.load(file)

        return tuple(load_json(name) for name in (
            "rules", "unit_aliases", "deprecations", "upgrade"))
'''))
r("jx-version-dict", (SO, '''            if version not in versions:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))
            path = path[versions.index(version)]
''', '''            by_version = dict(zip(versions, path))
            if version not in by_version:
                raise ValueError((
                    f"Version {version} not found. "
                    f"Available versions are {versions}"))

            path = by_version[version]
'''))
r("jx-issues-any", (SO, '''        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
''', '''        if issues is not None and any([
                "data of wrong type" in issues,
                "variables of wrong shape" in issues,
                not hasattr(self, "_api")]):
'''))
r("jx-dimension-keyerror", (SO, '''        if dimension not in self._api:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return self._api[dimension]
''', '''        size = self._api.get(dimension)
        if size is None:
            raise ValueError((
                f"{dimension} is not a valid dimension. "
                "See Sofa.list_dimensions for a list of valid dimensions."))

        return size
'''))
r("jx-verbose-next", (SO, '''        # get verbose description for dimension N
        if self.GLOBAL_DataType.startswith("FIR"):
            N_verbose = "samples"
        elif self.GLOBAL_DataType.startswith("TF"):
            N_verbose = "frequencies"
        elif self.GLOBAL_DataType.startswith("SOS"):
            N_verbose = "SOS coefficients"
        else:
            N_verbose = "data points"
''', '''        # get verbose description for dimension N
        verbose = {"FIR": "samples", "TF": "frequencies",
                   "SOS": "SOS coefficients"}
        N_verbose = next(
            (text for start, text in verbose.items()
             if self.GLOBAL_DataType.startswith(start)), "data points")
'''))
r("jx-metadata-loop", (SO, '''        self.GLOBAL_DateCreated = now
        self.GLOBAL_DateModified = now
        self.GLOBAL_APIName = "sofar SOFA API for Python (pyfar.org)"
        self.GLOBAL_APIVersion = sf.version()
        self.GLOBAL_ApplicationName = "Python"
        self.GLOBAL_ApplicationVersion = (
            f"{platform.python_version()} "
            f"[{platform.python_implementation()} - "
            f"{platform.python_compiler()}]")
        self.protected = True
''', '''        for name, text in {
                "DateCreated": now,
                "DateModified": now,
                "APIName": "sofar SOFA API for Python (pyfar.org)",
                "APIVersion": sf.version(),
                "ApplicationName": "Python",
                "ApplicationVersion": (
                    f"{platform.python_version()} "
                    f"[{platform.python_implementation()} - "
                    f"{platform.python_compiler()}]")}.items():
            setattr(self, f"GLOBAL_{name}", text)
        self.protected = True
'''))
r("jx-dataclass-issues", (SO, '''        # flag indicating if an error occurred
        error_occurred = error_msg is not None

        # verbose issue message
        if warning_msg and error_msg:
            issues = error_msg + "\\n" + warning_msg
        elif warning_msg:
            issues = warning_msg
        elif error_msg:
            issues = error_msg
        else:
            issues = None

        return error_occurred, issues
''', '''        # verbose issue message
        messages = [msg for msg in (error_msg, warning_msg) if msg]

        return error_msg is not None, "\\n".join(messages) or None
'''))
r("jx-addmissing-list", (SO, '''        added = "Added the following missing data with their default values:\\n"
''', '''        added = []
'''), (SO, '''                added += f"- {key} "
                added += f"({'mandatory' if is_mandatory else 'optional'})\\n"
''', '''                kind = "mandatory" if is_mandatory else "optional"
                added.append(f"- {key} ({kind})")
'''), (SO, '''            if "-" in added:
                print(added)
            else:
''', '''            if added:
                print("Added the following missing data with their default "
                      "values:\\n" + "\\n".join(added) + "\\n")
            else:
'''))
r("jx-custom-setdefault", (SO, '''            if not hasattr(self, "_custom"):
                self._custom = {}

            self._custom[key] = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            self._convention[key] = self._custom[key]
''', '''            entry = {
                "flags": flags,
                "dimensions": dimensions,
                "type": dtype,
                "default": None,
                "comment": ""}
            if hasattr(self, "_custom"):
                self._custom[key] = entry
            else:
                self._custom = {key: entry}
            self._convention[key] = entry
'''))
r("jx-flags-set", (SO, '''        # skip optional fields if requested
        if flags is None:
            is_mandatory = False
        elif "m" not in flags:
            is_mandatory = False
        else:
            is_mandatory = True

        return is_mandatory
''', '''        return "m" in (flags or "")
'''))
r("jx-flags-read", (SO, '''        if flags is None:
            is_read_only = False
        elif "r" not in flags:
            is_read_only = False
        else:
            is_read_only = True

        return is_read_only
''', '''        return bool(flags) and flags.find("r") >= 0
'''))
r("jx-delattr-inverted", (SO, '''        # delete anything if not frozen, delete non mandatory
        if not self.protected or \\
                not self._mandatory(self._convention[name]["flags"]):
            super().__delattr__(name)

            # check if custom field as to be deleted
            if hasattr(self, "_custom"):
                if name in self._custom:
                    self._custom.pop(name)
                    self._convention.pop(name, None)
        else:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")
''', '''        # delete anything if not frozen, delete non mandatory
        deletable = not self.protected or \\
            not self._mandatory(self._convention[name]["flags"])
        if not deletable:
            raise TypeError(
                f"{name} is a mandatory attribute that can not be deleted")

        super().__delattr__(name)

        # check if custom field as to be deleted
        if name in getattr(self, "_custom", {}):
            for table in (self._custom, self._convention):
                table.pop(name, None)
'''))
r("jx-shape-compare-helper", (SO, '''                shape_compare = shape_act
                if all(n == 1 for n in shape_act[len(shape_ref):]):
                    shape_compare = shape_act[:len(shape_ref)]
                for _ in range(len(shape_ref) - len(shape_compare)):
                    shape_compare += (1, )
''', '''                ndim = len(shape_ref)
                shape_compare = shape_act
                if set(shape_act[ndim:]) <= {1}:
                    shape_compare = shape_act[:ndim]
                shape_compare += (1, ) * (ndim - len(shape_compare))
'''))
r("jx-upgrade-next", (SO, '''        elif convention_current in upgrade:
            for from_to in upgrade[convention_current]["from_to"]:
                if version_current in from_to[0]:
                    is_deprecated = True
                    break
''', '''        elif convention_current in upgrade:
            is_deprecated = any(
                version_current in versions for versions, *_ in
                upgrade[convention_current]["from_to"])
'''))
r("jx-units-generator", (SO, '''            keys = [k for k in self.__dict__.keys() if k.endswith("Units")]
            for key in keys:
                unit = getattr(self, key)
                if unit.lower() != unit:
''', '''            units = {k: v for k, v in self.__dict__.items()
                     if k.endswith("Units")}
            for key, unit in units.items():
                if unit != unit.lower():
'''))
r("jx-write-names", (W, '''            tmp_var = file.createVariable(
                key.replace("Data_", "Data."), dtype, shape,
                zlib=use_zlib, complevel=compression)
''', '''            options = {"zlib": use_zlib, "complevel": compression}
            tmp_var = file.createVariable(
                "Data.".join(key.split("Data_")), dtype, shape, **options)
'''))
r("jx-read-namedtuple", (W, '''    # remove fields from initial Sofa object that were not contained in NetCDF
    # file (initial Sofa object contained mandatory and optional fields)
    attrs = [attr for attr in sofa.__dict__.keys() if not attr.startswith("_")]
    for attr in attrs:
        if attr not in all_attr:
            delattr(sofa, attr)
''', '''    # remove fields from initial Sofa object that were not contained in NetCDF
    # file (initial Sofa object contained mandatory and optional fields)
    superfluous = {attr for attr in vars(sofa)
                   if attr[:1] != "_"}.difference(all_attr)
    for attr in superfluous:
        delattr(sofa, attr)
'''))
r("jx-stream-keys", (SS, '''        dset_variables = np.array(list(self._file.variables.keys()))
        dset_attributes = np.asarray(self._file.ncattrs())
''', '''        dset_variables = frozenset(self._file.variables)
        dset_attributes = frozenset(self._file.ncattrs())
'''))
r("jx-equals-while", (UT, '''    # check for equal length
    if len(keys_a) != len(keys_b):
''', '''    # check for equal length
    if not len(keys_a) == len(keys_b):
'''), (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if any(k not in keys_b for k in keys_a) or \\
            any(k not in keys_a for k in keys_b):
'''))
r("jx-nd-reshape", (UT, '''    array = np.array(array)

    for _ in range(ndim - array.ndim):
        array = array[..., np.newaxis]
    return array
''', '''    array = np.array(array)
    missing = max(0, ndim - array.ndim)
    return array.reshape(array.shape + (1, ) * missing)
'''))

CH = '''        if dtype != "attribute" and ("." in name or "/" in name):
            raise ValueError(("points '.' and slashes '/' are only allowed in "
                              "the names of attributes"))
'''
r("jy-chars-any", (SO, CH, '''        if dtype != "attribute" and any(c in name for c in "./"):
            raise ValueError(("points '.' and slashes '/' are only allowed in "
                              "the names of attributes"))
'''))
r("jy-chars-loop", (SO, CH, '''        for char in [".", "/"]:
            if char in name and dtype != "attribute":
                raise ValueError(f"{char} is only allowed in attributes")
'''))
r("jy-chars-set", (SO, CH, '''        if dtype != "attribute" and not {".", "/"}.isdisjoint(name):
            raise ValueError("'.' and '/' are only allowed in attributes")
'''))
r("jy-chars-count", (SO, CH, '''        if dtype != "attribute":
            if name.count(".") or name.find("/") != -1:
                raise ValueError("'.' and '/' are only allowed in attributes")
'''))
SUBK = '''            sub_keys = [k for k in all_keys if k.startswith(f"{key}_")
                        and sofa._convention[k]["type"] == "attribute"]
            for sub_key in sub_keys:
                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
'''
r("jy-sub-attrs-list", (W, '''        # write data
        for key in all_keys:
''', '''        # write data
        attributes = [key for key in all_keys
                      if sofa._convention[key]["type"] == "attribute"]
        for key in all_keys:
'''), (W, SUBK, '''            for sub_key in attributes:
                if sub_key.startswith(f"{key}_"):
                    setattr(tmp_var, sub_key[len(key)+1:],
                            str(getattr(sofa, sub_key)))
'''))
r("jy-sub-attrs-set", (W, '''        # write data
        for key in all_keys:
''', '''        # write data
        attributes = {key: str(getattr(sofa, key)) for key in all_keys
                      if sofa._convention[key]["type"] == "attribute"}
        for key in all_keys:
'''), (W, SUBK, '''            for sub_key, text in attributes.items():
                if sub_key.startswith(f"{key}_"):
                    setattr(tmp_var, sub_key[len(key)+1:], text)
'''))
r("jy-sub-attrs-fn", (W, SUBK, '''            for sub_key in _attributes_of(sofa, key, all_keys):
                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
'''), (W, '''def _format_value_for_netcdf(''', '''def _attributes_of(sofa, variable, keys):
    """Names of the attributes of a variable."""
    names = []
    for key in keys:
        if sofa._convention[key]["type"] != "attribute":
            continue
        if key.startswith(variable + "_"):
            names.append(key)
    return names


def _format_value_for_netcdf('''))
r("jy-sub-attrs-not", (W, SUBK, '''            sub_keys = filter(
                lambda k: k.startswith(f"{key}_") and
                sofa._convention[k]["type"] not in ("double", "string"),
                all_keys)
            for sub_key in sub_keys:
                setattr(tmp_var, sub_key[len(key)+1:],
                        str(getattr(sofa, sub_key)))
'''))

MASK = '                # missing data (masked values) match missing data only\n                npt.assert_equal(np.ma.getmaskarray(np.squeeze(a)),\n                                 np.ma.getmaskarray(np.squeeze(b)))\n'
r("jy-mask-any", (UT, MASK, '''                if not np.array_equal(np.ma.getmaskarray(np.squeeze(a)),
                                      np.ma.getmaskarray(np.squeeze(b))):
                    raise AssertionError("missing data")
'''))
r("jy-mask-neq", (UT, MASK, '''                mask_a, mask_b = [np.ma.getmaskarray(np.squeeze(x))
                                  for x in (a, b)]
                if mask_a.shape != mask_b.shape or (mask_a != mask_b).any():
                    raise ValueError("missing data")
'''))
r("jy-mask-helper", (UT, MASK, '''                npt.assert_array_equal(_missing(a), _missing(b))
'''), (UT, '''def _equals_raise_warning(''', '''def _missing(value):
    return np.ma.getmaskarray(np.squeeze(value))


def _equals_raise_warning('''))

r("jy-keys-diff", (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if set(keys_a) - set(keys_b):
'''))
r("jy-keys-subset", (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if not set(keys_a).issubset(keys_b):
'''))
r("jy-keys-symm", (UT, '''    if set(keys_a) != set(keys_b):
''', '''    if set(keys_a).symmetric_difference(keys_b):
'''))
r("jy-dims-known", (SO, '''        issues = self.verify(issue_handling="return")
        if issues is not None and ("data of wrong type" in issues or
                                   "variables of wrong shape" in issues or
                                   not hasattr(self, "_api")):
            raise''', '''        issues = self.verify(issue_handling="return") or ""
        failed = any(text in issues for text in (
            "data of wrong type", "variables of wrong shape"))
        if failed or (issues and not hasattr(self, "_api")):
            raise'''))
r("jy-stream-parts", (SS, '''        var_attr = None
        if "_" in name_netcdf and not is_global:
            name_netcdf, var_attr = name_netcdf.split('_', 1)
''', '''        var_attr = None
        if not is_global:
            name_netcdf, sep, rest = name_netcdf.partition('_')
            if sep:
                var_attr = rest
'''))
r("jy-add-missing-split", (SO, '''            add_data = (is_mandatory and mandatory) or \\
                (not is_mandatory and optional)
            # add with default
            if key not in keys and add_data:
''', '''            add_data = mandatory if is_mandatory else optional
            if not add_data or key in keys:
                continue
            # add with default
            if True:
'''))
