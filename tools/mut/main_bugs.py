P = 'src/server/nsca-ng.c'
M = {
 'setuid-first': ('D01', [(P, '(setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1)', '(setuid(pw->pw_uid) == -1 || setgid(pw->pw_gid) == -1)')], 1),
 'no-initgroups': ('D01', [(P, '''		if (initgroups(user, pw->pw_gid) == -1)
			die("Cannot set up group list for user %s: %m", user);
''', '')], 1),
 'initgroups-ignored': ('D01', [(P, '''		if (initgroups(user, pw->pw_gid) == -1)
			die("Cannot set up group list for user %s: %m", user);
''', '''		(void)initgroups(user, pw->pw_gid);
''')], 1),
 'no-chdir': ('D01', [(P, '(chroot(new_root) == -1 || chdir("/") == -1)', '(chroot(new_root) == -1)')], 1),
 'chdir-first': ('D01', [(P, '(chroot(new_root) == -1 || chdir("/") == -1)', '(chdir("/") == -1 || chroot(new_root) == -1)')], 1),
 'chdir-other': ('D01', [(P, 'chdir("/") == -1', 'chdir(".") == -1')], 1),
 'setuid-ignored': ('D01', [(P, '(setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1)', '(setgid(pw->pw_gid) == -1 || (setuid(pw->pw_uid) == -1 && errno != EAGAIN))')], 1),
 'setuid-gid': ('D01', [(P, 'setuid(pw->pw_uid)', 'setuid(pw->pw_gid)')], 1),
 'seteuid': ('D01', [(P, 'setuid(pw->pw_uid)', 'seteuid(pw->pw_uid)')], 1),
 'die2warn': ('D01', [(P, 'die("Cannot switch to user %s: %m", user);', 'error("Cannot switch to user %s: %m", user);')], 1),
 'only-user': ('D01', [(P, 'if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)', 'if (cfg_size(cfg, "user") > 0)')], 1),
 'chroot-user': ('D01', [(P, 'if (new_root != NULL && (chroot', 'if (user != NULL && new_root != NULL && (chroot')], 1),
 'no-user': ('D01', [(P, '''	if (user != NULL
	    && (setgid''', '''	if (new_root != NULL && user != NULL
	    && (setgid''')], 1),
 'chroot-last': ('D01', [(P, '''	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		die("Cannot change root directory to %s: %m", new_root);
''', ''), (P, '''		die("Cannot switch to user %s: %m", user);
}''', '''		die("Cannot switch to user %s: %m", user);
	if (new_root != NULL && (chroot(new_root) == -1 || chdir("/") == -1))
		die("Cannot change root directory to %s: %m", new_root);
}''')], 1),
 'drop-late': ('D01', [(P, '''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);
''', ''), (P, '''	notice("%s starting up", nsca_version());
''', '''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);
	notice("%s starting up", nsca_version());
''')], 1),
 'write-before-daemon': ('D02', [(P, '''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);

''', ''), (P, '''	if (!opt->foreground && !socket_activated) {''', '''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);

	if (!opt->foreground && !socket_activated) {''')], 1),
 'write-ignored': ('D02', [(P, '''	if (pid_file != NULL && pidfile_write(pfh) == -1)
		die("Cannot write PID to %s: %m", pid_file);
''', '''	if (pid_file != NULL)
		(void)pidfile_write(pfh);
''')], 1),
 'write-fg': ('D02', [(P, 'if (pid_file != NULL && pidfile_write(pfh) == -1)', 'if (pid_file != NULL && !opt->foreground && pidfile_write(pfh) == -1)')], 1),
 'no-atexit': ('D02', [(P, '''		if (atexit(remove_pidfile) != 0) {
			remove_pidfile();
			die("Cannot register function to be called on exit");
		}
''', '')], 1),
 'no-remove-restart': ('D02', [(P, '''		remove_pidfile();
		forget_config();
		stop_keep_alive();''', '''		forget_config();
		stop_keep_alive();''')], 1),
 'forget-first': ('D02', [(P, '''		remove_pidfile();
		forget_config();
		stop_keep_alive();''', '''		forget_config();
		remove_pidfile();
		stop_keep_alive();''')], 1),
 'not-nulled': ('D02', [(P, '''		pid_file = NULL; /* Don't retry removing the PID file. */
''', '')], 0),
 'open-after-server': ('D02', [(P, '''	server = server_start(''', '''	server = NULL;
	if (0) server = server_start('''), (P, '''	log_set((int)cfg_getint(cfg, "log_level"), opt->log_target);

	if (pid''', '''	server = server_start(
	    cfg_getstr(cfg, "listen"),
	    cfg_getstr(cfg, "tls_ciphers"),
	    cfg_getstr(cfg, "command_file"),
	    cfg_getstr(cfg, "temp_directory"),
	    (size_t)cfg_getint(cfg, "max_command_size"),
	    (size_t)cfg_getint(cfg, "max_queue_size"),
	    cfg_getfloat(cfg, "timeout"));
	log_set((int)cfg_getint(cfg, "log_level"), opt->log_target);

	if (pid''')], 0),
 'ignore-exist': ('D02', [(P, '''			else
				die("Cannot create %s: %m", pid_file);
''', '''			else
				error("Cannot create %s: %m", pid_file);
''')], 1),
 'no-C': ('D05', [(P, '''	if (opt->command_file != NULL)
		cfg_setstr(cfg, "command_file", opt->command_file);
''', '')], 1),
 'swap-C': ('D05', [(P, 'cfg_setstr(cfg, "command_file", opt->command_file);', 'cfg_setstr(cfg, "command_file", opt->conf_file);')], 1),
 'no-P': ('D05', [(P, '''	if (opt->pid_file != NULL)
		cfg_setstr(cfg, "pid_file", opt->pid_file);
''', '')], 1),
 'late-P': ('D05', [(P, '''	if (opt->pid_file != NULL)
		cfg_setstr(cfg, "pid_file", opt->pid_file);
''', ''), (P, '''	if (opt->log_target & (LOG''', '''	if (opt->pid_file != NULL)
		cfg_setstr(cfg, "pid_file", opt->pid_file);
	if (opt->log_target & (LOG''')], 1),
 'P-only-if-set': ('D05', [(P, 'if (opt->pid_file != NULL)\n\t\tcfg', 'if (opt->pid_file != NULL && cfg_size(cfg, "pid_file") > 0)\n\t\tcfg')], 1),
 'no-b': ('D05', [(P, '''	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);
''', '')], 1),
 'late-b': ('D05', [(P, '''	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);
''', ''), (P, '''	if (pid_file != NULL) {
		if ((pfh''', '''	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);
	if (pid_file != NULL) {
		if ((pfh''')], 1),
 'no-l': ('D05', [(P, '''	if (opt->log_level != -1)
		cfg_setint(cfg, "log_level", opt->log_level);
''', '')], 1),
 'l-positive': ('D05', [(P, 'if (opt->log_level != -1)', 'if (opt->log_level > 0)')], 1),
 'first-wins': ('D05', [(P, '''			if (opt->command_file != NULL)
				free(opt->command_file);
			opt->command_file = xstrdup(optarg);''', '''			if (opt->command_file == NULL)
				opt->command_file = xstrdup(optarg);''')], 1),
 'conf-ignored': ('D05', [(P, '''	cfg = conf_parse(opt->conf_file != NULL ?
	    opt->conf_file : DEFAULT_CONF_FILE);''', '''	cfg = conf_parse(opt->conf_file == NULL || opt->foreground ?
	    DEFAULT_CONF_FILE : opt->conf_file);''')], 1),
 'swap-max': ('D05', [(P, '''	    (size_t)cfg_getint(cfg, "max_command_size"),
	    (size_t)cfg_getint(cfg, "max_queue_size"),''', '''	    (size_t)cfg_getint(cfg, "max_queue_size"),
	    (size_t)cfg_getint(cfg, "max_command_size"),''')], 1),
 'int-timeout': ('D05', [(P, '''	    cfg_getfloat(cfg, "timeout"));''', '''	    (int)cfg_getfloat(cfg, "timeout"));''')], 1),
 'swap-files': ('D05', [(P, '''	    cfg_getstr(cfg, "command_file"),
	    cfg_getstr(cfg, "temp_directory"),''', '''	    cfg_getstr(cfg, "temp_directory"),
	    cfg_getstr(cfg, "command_file"),''')], 1),
 'optfree': ('D05', [(P, '''	opt = get_options(argc, argv);
''', '''	opt = get_options(argc, argv);
	if (opt->foreground) free_options(opt);
''')], 1),
 'memset-1': ('D06', [(P, '(void)memset(password, 0, strlen(password));', '(void)memset(password, 0, strlen(password) - 1);')], 1),
 'memset-sizeof': ('D06', [(P, '(void)memset(password, 0, strlen(password));', '(void)memset(password, 0, sizeof(password));')], 1),
 'no-default': ('D06', [(P, '''		forget_password(cfg); /* The default for the above. */
''', '')], 1),
 'off-by-one': ('D06', [(P, 'for (i = 0; i < n_auth_blocks; i++)', 'for (i = 1; i < n_auth_blocks; i++)')], 1),
 'off-by-one-end': ('D06', [(P, 'for (i = 0; i < n_auth_blocks; i++)', 'for (i = 0; i + 1 < n_auth_blocks; i++)')], 1),
 'first-only': ('D06', [(P, 'cfg_getnsec(cfg, "authorize", i)', 'cfg_getnsec(cfg, "authorize", 0)')], 1),
 'no-atexit-forget': ('D06', [(P, 'atexit(log_close) != 0 || atexit(forget_config) != 0', 'atexit(log_close) != 0')], 1),
 'no-forget-restart': ('D06', [(P, '''		forget_config();
		stop_keep_alive();''', '''		stop_keep_alive();''')], 1),
 'cfg-not-nulled': ('D06', [(P, '''		cfg = NULL;
''', '')], 1),
 'log-password': ('D06', [(P, '''	notice("%s starting up", nsca_version());
''', '''	notice("%s starting up", nsca_version());
	if (cfg_size(cfg, "password") > 0) debug("%s", cfg_getstr(cfg, "password"));
''')], 1),
 'log-passwords': ('D06', [(P, '''		(void)memset(password, 0, strlen(password));
''', '''		debug("Wiping %s", password);
		(void)memset(password, 0, strlen(password));
''')], 1),
 'no-hup': ('D07', [(P, '''	if (w->signum == SIGHUP)
		restart = true;
''', '')], 1),
 'int-restart': ('D07', [(P, '''	if (w->signum == SIGHUP)
		restart = true;
''', '''	if (w->signum != SIGTERM)
		restart = true;
''')], 1),
 'no-break': ('D07', [(P, '''	ev_break(EV_A_ EVBREAK_ALL);

	if (w->signum == SIGHUP)
		restart = true;
''', '''	if (w->signum == SIGHUP)
		restart = true;
	else
		ev_break(EV_A_ EVBREAK_ALL);
''')], 1),
 'no-term': ('D07', [(P, '''	ev_signal_start(EV_DEFAULT_UC_ &sigterm_watcher);
''', '')], 1),
 'wrong-sig': ('D07', [(P, 'signal_cb, SIGTERM)', 'signal_cb, SIGTSTP)')], 1),
 'no-stop': ('D07', [(P, '''	server_stop(server);
	free''', '''	if (!restart)
		server_stop(server);
	free''')], 1),
 'exec-success': ('D07', [(P, '''		die("Cannot restart myself: %m");
''', '')], 1),
 'exec-argv1': ('D07', [(P, 'execvp(argv[0], argv)', 'execvp(argv[0], argv + 1)')], 1),
 'daemon-ignored': ('D07', [(P, '''		if (daemon(0, 0) == -1)
			die("Cannot daemonize: %m");
''', '''		(void)daemon(0, 0);
''')], 1),
 'daemon-sd': ('D07', [(P, 'if (!opt->foreground && !socket_activated) {', 'if (!opt->foreground) {')], 1),
 'no-loopfork': ('D07', [(P, '''		ev_loop_fork(EV_DEFAULT_UC);
''', '')], 1),
 'ret-fail': ('D07', [(P, '''	notice("Exiting");
	return EXIT_SUCCESS;''', '''	notice("Exiting");
	return restart;''')], 0),
 'keepalive-left': ('D07', [(P, '''static void
stop_keep_alive(void)
{
	if (ev_is_active''', '''static void
stop_keep_alive(void)
{
	if (!ev_is_active''')], 0),
 # refactorings
 'rf-signum': ('D01 D02 D05 D06 D07', [(P, '''	if (w->signum == SIGHUP)
		restart = true;
''', '''	restart = (w->signum == SIGHUP);
''')], 0),
 'rf-drop-inline': ('D01 D02 D05 D06 D07', [(P, '''	if (cfg_size(cfg, "user") > 0 || cfg_size(cfg, "chroot") > 0)
		drop_privileges(cfg_size(cfg, "user") > 0 ?
		    cfg_getstr(cfg, "user") : NULL,
		    cfg_size(cfg, "chroot") > 0 ?
		    cfg_getstr(cfg, "chroot") : NULL);
''', '''	{
		const char *user = NULL, *root = NULL;

		if (cfg_size(cfg, "chroot") != 0)
			root = cfg_getstr(cfg, "chroot");
		if (cfg_size(cfg, "user") != 0)
			user = cfg_getstr(cfg, "user");
		drop_privileges(user, root);
	}
''')], 0),
 'rf-drop-split': ('D01 D02', [(P, '''	if (user != NULL
	    && (setgid(pw->pw_gid) == -1 || setuid(pw->pw_uid) == -1))
		die("Cannot switch to user %s: %m", user);
''', '''	if (user != NULL) {
		uid_t uid = pw->pw_uid;
		gid_t gid = pw->pw_gid;

		if (setgid(gid) != 0)
			die("Cannot switch to group: %m");
		if (setuid(uid) != 0)
			die("Cannot switch to user %s: %m", user);
	}
''')], 0),
 'rf-override-fn': ('D05 D02', [(P, '''static options *
get_options(int argc, char **argv)
{''', '''static void
override(const char *key, const char *value)
{
	if (value == NULL)
		return;
	cfg_setstr(cfg, key, value);
}

static options *
get_options(int argc, char **argv)
{'''), (P, '''	if (opt->command_file != NULL)
		cfg_setstr(cfg, "command_file", opt->command_file);
	if (opt->pid_file != NULL)
		cfg_setstr(cfg, "pid_file", opt->pid_file);
	if (opt->bind != NULL)
		cfg_setstr(cfg, "listen", opt->bind);
''', '''	override("listen", opt->bind);
	override("command_file", opt->command_file);
	override("pid_file", opt->pid_file);
'''), (P, 'static void stop_keep_alive(void);', 'static void stop_keep_alive(void);\nstatic void override(const char *, const char *);')], 0),
 'rf-wipe-loop': ('D06', [(P, '''		(void)memset(password, 0, strlen(password));
''', '''		while (*password != '\\0')
			*password++ = '\\0';
''')], 0),
 'rf-wipe-rev': ('D06', [(P, '''		for (i = 0; i < n_auth_blocks; i++)
			forget_password(cfg_getnsec(cfg, "authorize", i));

		forget_password(cfg); /* The default for the above. */
''', '''		forget_password(cfg); /* The default for the above. */
		for (i = n_auth_blocks; i > 0; i--)
			forget_password(cfg_getnsec(cfg, "authorize", i - 1));

''')], 0),
 'rf-setopt': ('D05', [(P, '''			if (opt->command_file != NULL)
				free(opt->command_file);
			opt->command_file = xstrdup(optarg);''', '''			free(opt->command_file);
			opt->command_file = xstrdup(optarg);''')], 0),
 'rf-optmemset': ('D05', [(P, '''	opt->bind = NULL;
	opt->conf_file = NULL;
	opt->command_file = NULL;
	opt->pid_file = NULL;
	opt->log_level = -1;''', '''	(void)memset(opt, 0, sizeof(*opt));
	opt->log_level = -1;''')], 0),
 'rf-exitfn': ('D02 D06 D07', [(P, '''	notice("Exiting");
	return EXIT_SUCCESS;''', '''	notice("Exiting");
	exit(EXIT_SUCCESS);''')], 0),
 'rf-server-vars': ('D05', [(P, '''	server = server_start(
	    cfg_getstr(cfg, "listen"),''', '''	char *listen_addr = cfg_getstr(cfg, "listen");
	server = server_start(
	    listen_addr,''')], 0),
 'rf-log-order': ('D01 D05', [(P, '''	if (opt->log_level != -1)
		cfg_setint(cfg, "log_level", opt->log_level);
''', ''), (P, '''	if (access(cfg_getstr''', '''	if (opt->log_level != -1)
		cfg_setint(cfg, "log_level", opt->log_level);
	if (access(cfg_getstr''')], 0),
}
