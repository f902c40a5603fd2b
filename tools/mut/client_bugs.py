P='src/client/parse.c'; C='src/client/client.c'; I='src/client/input.c'; A='src/client/auth.c'
M={
'pbrk':('C03',[(P,'strpbrk(input, "\\\\\\n")','strpbrk(input, "\\\\")')],1),
'host':('C03',[(P,'PROCESS_HOST_CHECK_RESULT','PROCESS_SERVICE_CHECK_RESULT')],1),
'len':('C03',[(P,'lengths[n - 1] = pos - start_pos','lengths[n - 1] = pos - start_pos + 1')],1),
'start':('C03',[(P,'start_pos = pos + 1','start_pos = pos')],1),
'swap':('C03',[(P,'''		    lengths[0], fields[0],
		    lengths[1], fields[1],
		    fields[2]);''','''		    lengths[1], fields[1],
		    lengths[0], fields[0],
		    fields[2]);''')],1),
'n5':('C03',[(P,'n < 4 &&','n <= 4 &&')],1),
'n3':('C03',[(P,'n < 4 &&','n < 3 &&')],1),
'case2':('C03',[(P,'	case 3:','	case 2:\n	case 3:')],1),
'brk':('C03',[(P,"line[0] == '['","line[0] != '\\0'")],1),
'strchr-rf':('C03',[(P,'strpbrk(input, "\\\\\\n") != NULL',"strchr(input, '\\\\') != NULL || strchr(input, '\\n') != NULL")],0),
'brk-rf':('C03',[(P,"if (line[0] == '[')","if (strncmp(line, \"[\", 1) == 0)")],0),
'free':('C03 C07',[(P,"	if (escaped != NULL)\n		free(escaped);","	free(escaped);")],0),
'leak':('C03 C07',[(P,"	if (escaped != NULL)\n		free(escaped);","")],1),
'order':('C02',[(C,'''		tls_write(tls, client->command, client->command_length, free);
		tls_read_line(tls, handle_tls_command_response);''','''		tls_write(tls, client->command, client->command_length, free);
		tls_read_line(tls, handle_tls_command_response);
		input_read_chunk(client->input, handle_input_chunk);''')],1),
'grumpy':('C01 C02',[(C,'''	if (strcasecmp("OKAY", line) == 0)
		client_stop(client);
	else if (!server_is_grumpy(tls, line))''','''	if (!server_is_grumpy(tls, line))
		client_stop(client);
	else if (0)''')],1),
'prefixok':('C02 C01',[(C,'''	if (strcasecmp("OKAY", line) == 0)
		input_read_chunk''','''	if (strncasecmp("OK", line, 2) == 0)
		input_read_chunk''')],1),
'ver':('C04',[(C,'protocol_version != 1','protocol_version > 1 && protocol_version != 2')],1),
'chomp':('C03 C02',[(C,'''		chomp(data);
''','')],0),
'noeof':('C01 C02 C03 C07',[(I,'ev_feed_event(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM)','ev_invoke(EV_DEFAULT_UC_ &input->watcher, EV_CUSTOM)')],1),
'pushleak':('C07',[(C,'''		free(client->command);
		if (!server_is_grumpy(tls, line))
			bail(tls, "Received unexpected PUSH response");''','''		if (!server_is_grumpy(tls, line))
			bail(tls, "Received unexpected PUSH response");''')],1),
}
