P='src/client/parse.c'; C='src/client/client.c'; I='src/client/input.c'; A='src/client/auth.c'
ALLC='C01 C02 C03 C04 C07 C08 L03'
M={
'rf-okay-helper':(ALLC,[(C,'static void\nhandle_tls_connect(','static bool\nis_okay(const char *line)\n{\n	return strcasecmp(line, "OKAY") == 0;\n}\n\nstatic void\nhandle_tls_connect('),
  (C,'	if (strcasecmp("OKAY", line) == 0)\n		client_stop','	if (is_okay(line))\n		client_stop'),(C,'	if (strcasecmp("OKAY", line) == 0)\n		input_read','	if (is_okay(line))\n		input_read'),
  (C,'	if (strcasecmp("OKAY", line) == 0) {','	if (is_okay(line)) {')],0),
'rf-bail-one':(ALLC,[(C,'''	tls_write(tls, "BAIL ", sizeof("BAIL ") - 1, NULL);
	tls_write_line(tls, message);''','''	{
		char *line = concat("BAIL ", message);

		tls_write_line(tls, line);
		free(line);
	}''')],0),
'rf-bail-exit':(ALLC,[(C,'''	client_stop(client);
	critical("%s", message);
	free(message);
	exit_code = EXIT_FAILURE;''','''	exit_code = EXIT_FAILURE;
	critical("%s", message);
	free(message);
	client_stop(client);''')],0),
'rf-moin':(ALLC,[(C,'''		if (!parse_line(line, args, 2))
			bail(tls, "Cannot parse MOIN response");
		else if ((protocol_version = atoi(args[1])) <= 0)
			bail(tls, "Expected protocol version");
		else if (protocol_version != 1)
			bail(tls, "Protocol version %d not supported",
			    protocol_version);
		else {''','''		if (!parse_line(line, args, 2)) {
			bail(tls, "Cannot parse MOIN response");
			free(line);
			return;
		}
		protocol_version = (int)strtol(args[1], NULL, 10);
		if (protocol_version < 1 || protocol_version > 1)
			bail(tls, "Protocol version %d not supported",
			    protocol_version);
		else {''')],0),
'rf-req':(ALLC,[(C,'''	xasprintf(&request, "PUSH %zu", client->command_length);''','''	xasprintf(&request, "%s %zu", "PUSH", client->command_length);''')],0),
'rf-len':(ALLC,[(C,'''	client->command_length = strlen(client->command);
	client->command[client->command_length++] = '\\n';''','''	{
		size_t len = strlen(client->command);
		client->command[len] = '\\n';
		client->command_length = len + 1;
	}''')],0),
'rf-input-helper':(ALLC,[(I,'''				debug("No (more) data available");
				if (input->eof_handler != NULL)
					input->eof_handler(input);
				input_stop(input);''','''				finish(input);'''),(I,'static void\nread_cb(EV_P_ ev_io *w','static void\nfinish(input_state *input)\n{\n	debug("No (more) data available");\n	if (input->eof_handler != NULL)\n		input->eof_handler(input);\n	input_stop(input);\n}\n\nstatic void\nread_cb(EV_P_ ev_io *w'),
 (I,'static void read_cb(','static void finish(input_state *);\nstatic void read_cb(')],0),
'rf-input-loop':(ALLC,[(I,'	} while (n > 0);','	} while (!(n <= 0));'),(I,'''		if ((chunk = buffer_read_chunk(input->buffer, input->separator))
		    != NULL) {''','''		chunk = buffer_read_chunk(input->buffer, input->separator);
		if (chunk) {''')],0),
'rf-psk':(ALLC,[(A,'''	(void)memcpy(identity, configured_id, identity_len);
	(void)memcpy(password, configured_pw, password_len);

	identity[identity_len] = '\\0';
''','''	(void)memcpy(password, configured_pw, password_len);
	(void)memcpy(identity, configured_id, identity_len);
	identity[identity_len] = '\\0';
''')],0),
'rf-psk2':(ALLC,[(A,'MIN(strlen(configured_pw), max_password_len)','strnlen(configured_pw, max_password_len)')],0),
'rf-psk3':(ALLC,[(A,'MIN(strlen(configured_pw), max_password_len);','strlen(configured_pw);'),(A,'	(void)memcpy(identity','	if (password_len > max_password_len)\n		password_len = max_password_len;\n	(void)memcpy(identity')],0),
'rf-grumpy':(ALLC,[(C,'''	if (strncasecmp("FAIL", line, 4) == 0
	    || strncasecmp("BAIL", line, 4) == 0) {
		client_stop(client);
		critical("Server said: %s", line);
		exit_code = EXIT_FAILURE;
		return true;
	}
	return false;''','''	bool grumpy = strncasecmp("BAIL", line, 4) == 0;

	if (!grumpy)
		grumpy = strncasecmp("FAIL", line, 4) == 0;
	if (!grumpy)
		return false;
	critical("Server said: %s", line);
	exit_code = EXIT_FAILURE;
	client_stop(client);
	return true;''')],0),
'rf-fields':(ALLC,[(P,'''	for (pos = 0; n < 4 && input[pos] != '\\0'; pos++)
		if (input[pos] == delimiter) {''','''	for (pos = 0; input[pos] != '\\0'; pos++)
		if (n < 4 && input[pos] == delimiter) {''')],0),
'rf-fields-ptr':(ALLC,[(P,'''	for (pos = 0; n < 4 && input[pos] != '\\0'; pos++)
		if (input[pos] == delimiter) {
			lengths[n - 1] = pos - start_pos;''','''	for (pos = 0; n < 4 && input[pos] != '\\0'; ++pos) {
		if (input[pos] != delimiter)
			continue;
		{
			lengths[n - 1] = pos - start_pos;'''),(P,'''			n++;
		}
''','''			n++;
		}
	}
''')],0),
'rf-fields-strchr':(ALLC,[(P,'''	for (pos = 0; n < 4 && input[pos] != '\\0'; pos++)
		if (input[pos] == delimiter) {
			lengths[n - 1] = pos - start_pos;''','''	const char *dl;
	while (n < 4 && (dl = strchr(input + start_pos, delimiter)) != NULL) {
			pos = (int)(dl - input);
			lengths[n - 1] = pos - start_pos;''')],0),
'rf-always-escape':(ALLC,[(P,'''	if (strpbrk(input, "\\\\\\n") != NULL)
		input = escaped = escape(input);
	else
		escaped = NULL;
''','''	input = escaped = escape(input);
''')],0),
'rf-ifn':(ALLC,[(P,'	switch (n) {\n	case 3:','	if (n == 3) {'),(P,'		break;\n	case 4:','	} else if (n == 4) {'),(P,'		break;\n	default:','	} else {')],0),
'rf-cmd':(ALLC,[(P,'''	if (line[0] == '[')
		command = xstrdup(line);
	else
		xasprintf(&command, "[%lu] %s", (unsigned long)time(NULL),
		    line);
''','''	if (*line != '[') {
		time_t now = time(NULL);

		xasprintf(&command, "[%lu] %s", (unsigned long)now, line);
	} else
		command = xstrdup(line);
''')],0),
'rf-concat':(ALLC,[(C,'char *request = concat("MOIN 1 ", session_id);','char *request;\n\n	xasprintf(&request, "MOIN %d %s", 1, session_id);')],0),
}
