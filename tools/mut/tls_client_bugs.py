T='src/common/tls.c'; D='S08 S12 C01 C07'
M={
'nodie':(D,[(T,'''		warning_f = die;
		error_f = die;''','''		warning_f = warning;
		error_f = die;''')],1),
'nodie2':(D,[(T,'''		warning_f = die;
		error_f = die;''','''		warning_f = die;
		error_f = error;''')],1),
'nofd':(D,[(T,'''	if (revents & EV_CUSTOM
	    && (tls->fd = ''','''	if (result > 0
	    && (tls->fd = ''')],1),
'nostop':(D,[(T,'''		if (!(revents & EV_CUSTOM))
			ev_io_stop(EV_A_ w);
		tls->connect''','''		if (revents & EV_CUSTOM)
			ev_io_stop(EV_A_ w);
		tls->connect''')],1),
'early':(D,[(T,'''			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
		}
		check_tls_error(EV_A_ w, result);
''','''			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
		}
		check_tls_error(EV_A_ w, result);
		if (revents & EV_CUSTOM)
			tls->connect_handler(tls);
''')],1),
'notimer':(D,[(T,'''	if (tls->timeout > 0.0) {
		ev_timer_set''','''	if (tls->timeout > 0.0 && tls->init_watcher.cb != NULL && handle_timeout != NULL) {
		ev_timer_set''')],1),
'nocb':(D,[(T,'''	SSL_set_psk_client_callback(tls->ssl, set_psk);
''','''	if (tls->data != NULL) SSL_set_psk_client_callback(tls->ssl, set_psk);
''')],1),
}
