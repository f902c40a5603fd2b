P='src/server/conf.c'; D='S03 D03 D04'; H='src/server/hash.c'
M={
'grp':(D,[(P,'"^(%s)\\n?$"','"^%s\\n?$"')],1),
'noend':(D,[(P,'"^(%s)\\n?$"','"^(%s)\\n?"')],1),
'host':(D,[(P,'RESULT;(%s);.+"','RESULT;%s;.+"')],1),
'hostdot':(D,[(P,'HOST_CHECK_RESULT;(%s);.+"','HOST_CHECK_RESULT;(%s).+"')],1),
'svcswap':(D,[(P,'host_part, service_part);','service_part, host_part);')],1),
'strchr':(D,[(P,"(at = strrchr(pattern, '@'))","(at = strchr(pattern, '@'))")],1),
'dflt':(D,[(P,'"[^;]+"','".+"')],1),
'newline':(D,[(P,'REG_EXTENDED | REG_NOSUB','REG_EXTENDED | REG_NOSUB | REG_NEWLINE')],1),
'icase':(D,[(P,'REG_EXTENDED | REG_NOSUB','REG_EXTENDED | REG_NOSUB | REG_ICASE')],1),
'ret':(D,[(P,'	free(pattern);\n	return success;','	free(pattern);\n	return 0;')],1),
'cbswap':(D,[(P,'CFG_PTR_LIST_CB("services", NULL, CFGF_NODEFAULT,\n		    parse_service_pattern_cb','CFG_PTR_LIST_CB("services", NULL, CFGF_NODEFAULT,\n		    parse_host_pattern_cb')],1),
'cmdcb':(D,[(P,'	int success = parse_command_pattern_cb(cfg, opt, command_pattern,\n	    result);\n\n	free(command_pattern);\n	return success;','	int success = parse_command_pattern_cb(cfg, opt, command_pattern,\n	    result);\n\n	free(command_pattern);\n	return success < 0;')],1),
'nohosts':(D,[(P,'	    "hosts",\n','')],1),
'override':(D,[(P,'if (cfg_size(auth, settings[i]) == 0\n		    && ','if (')],1),
'first':(D,[(P,'	if (cfg_size(auth, "password") == 0)','	if (cfg_size(auth, "password") == 0 && cfg_size(auth, "commands") > 0)')],1),
'order':(D,[(P,'''		fallback_to_defaults(cfg, auth);
		validate_auth_section(auth);
		hash_insert(identity, auth);''','''		validate_auth_section(auth);
		hash_insert(identity, auth);
		fallback_to_defaults(cfg, auth);''')],1),
'skip':(D,[(P,'		hash_insert(identity, auth);','		if (i == 0 || strcmp(identity, "*") != 0)\n			hash_insert(identity, auth);')],1),
'offby':(D,[(P,'i < n_auth_blocks; i++','i + 1 < n_auth_blocks || i == 0; i++')],1),
'nullcheck':(D,[(P,'''				    cfg_opt_getnstr(global_opt, j)) == NULL)
					exit(EXIT_FAILURE);''','''				    cfg_opt_getnstr(global_opt, j)) == NULL)
					break;''')],1),
'valid':(D,[(P,'	cfg_set_validate_func(cfg, "max_queue_size",\n	    validate_unsigned_int_cb);\n','')],1),
'valid2':(D,[(P,'	long int value = cfg_opt_getnint(opt, cfg_opt_size(opt) - 1);','	long int value = cfg_opt_getnint(opt, 0);')],1),
'valid3':(D,[(P,'	if (value < 0) {','	if ((int)value < 0) {')],1),
'nan':(D,[(P,'!(value >= 0.0)','value < 0.0')],1),
'parse':(D,[(P,'	case CFG_PARSE_ERROR: /*','	case 7: /*'),(P,'	default: /* Won','	case CFG_PARSE_ERROR: break;\n	default: /* Won')],1),
'dupes':(D,[(P,'CFGF_MULTI | CFGF_TITLE | CFGF_NO_TITLE_DUPES','CFGF_MULTI | CFGF_TITLE')],1),
'hash':(D,[(H,'	p->data = value;','	if (p->data == NULL) p->data = (void *)key;')],1),
'empty':(D,[(P,'''	if ((n_auth_blocks = cfg_size(cfg, "authorize")) == 0)
		die("No authorizations configured");''','''	if ((n_auth_blocks = cfg_size(cfg, "authorize")) == 0)
		return;''')],1),
'rf-loop':(D,[(P,'for (i = 0; i < n_auth_blocks; i++) {','i = n_auth_blocks; while (i-- > 0) {')],0),
'rf-grp':(D,[(P,'"^(%s)\\n?$"','"^((%s))(\\n)?$"')],0),
'rf-split':(D,[(P,'''	char *at, *command_pattern, *pattern = xstrdup(service_pattern);

	if ((at = strrchr(pattern, '@')) == NULL)
		host_part = "[^;]+";
	else {
		host_part = at + 1;
		*at = '\\0';
	}
	service_part = pattern;

	xasprintf(&command_pattern,
	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
	    host_part, service_part);

	free(pattern);''','''	const char *at = strrchr(service_pattern, '@');
	char *command_pattern;

	host_part = service_part = NULL;
	if (at == NULL)
		xasprintf(&command_pattern,
		    "PROCESS_SERVICE_CHECK_RESULT;([^;]+);(%s);.+;.+", service_pattern);
	else
		xasprintf(&command_pattern,
		    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%.*s);.+;.+",
		    at + 1, (int)(at - service_pattern), service_pattern);
	(void)host_part; (void)service_part;''')],0),
'rf-fallback':(D,[(P,'''			for (j = 0; j < cfg_opt_size(global_opt); j++)
				if (cfg_setopt(auth,
				    cfg_getopt(auth, settings[i]),
				    cfg_opt_getnstr(global_opt, j)) == NULL)
					exit(EXIT_FAILURE);''','''			do {
				cfg_opt_t *o = cfg_getopt(auth, settings[i]);
				char *v = cfg_getnstr(cfg, settings[i], 0);
				if (cfg_setopt(auth, o, v) == NULL)
					exit(EXIT_FAILURE);
				j = 1;
			} while (0);''')],0),
'rf-valid':(D,[(P,'''	if (value < 0) {
		cfg_error(cfg, "`%s' must be a positive integer", opt->name);
		return -1; /* Abort. */
	}
	return 0;''','''	if (value >= 0)
		return 0;
	cfg_error(cfg, "`%s' must be a positive integer", opt->name);
	return -1; /* Abort. */''')],0),
'rf-size':(D,[(P,'if (cfg_size(auth, settings[i]) == 0\n		    && cfg_opt_size(global_opt) > 0)','if (cfg_opt_size(cfg_getopt(auth, settings[i])) < 1)')],0),
'rf-inline':(D,[(P,'		validate_auth_section(auth);\n','		if (cfg_opt_size(cfg_getopt(auth, "password")) < 1)\n			die("No password specified for %s", identity);\n'),(P,'static void validate_auth_section(cfg_t *);\n','static void validate_auth_section(cfg_t *) __attribute__((__unused__));\n')],0),
'rf-hash':(D,[(H,'	e.data = NULL; /* Initialize to make Clang\'s Static Analyzer happy. */\n\n	/*\n	 * Quoting','	e.data = value;\n\n	/*\n	 * Quoting')],0),
}
