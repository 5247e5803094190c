"""(name, analysis groups, file, [(old, new) or (file, old, new)])"""
BS = "rad-sim/sim/noc/booksim/"
D3 = "rad-sim/sim/dram/DRAMsim3/src/"
NOC = "rad-sim/sim/noc/"
SIM = "rad-sim/sim/"
EX = "rad-sim/example-designs/"
EDITS = [
 ("bufstate_policy_earlyret", "booksim", BS + "buffer_state.cpp", [("""  BufferPolicy * sp = NULL;
  string buffer_policy = config.GetStr("buffer_policy");
  if(buffer_policy == "private") {
    sp = new PrivateBufferPolicy(config, parent, name);
  } else if(buffer_policy == "shared") {
    sp = new SharedBufferPolicy(config, parent, name);
  } else if""", """  string const buffer_policy = config.GetStr("buffer_policy");
  if(buffer_policy == "private")
    return new PrivateBufferPolicy(config, parent, name);
  if(buffer_policy == "shared")
    return new SharedBufferPolicy(config, parent, name);
  BufferPolicy * sp = NULL;
  if""")]),
 ("bufstate_isfull_neg", "booksim", BS + "buffer_state.cpp", [("""  return (_buffer_state->OccupancyFor(vc) >= _vc_buf_size);
}

int BufferState::PrivateBufferPolicy::AvailableFor(int vc) const
{
  return _vc_buf_size - _buffer_state->OccupancyFor(vc);""", """  int const occ = _buffer_state->OccupancyFor(vc);
  return !(occ < _vc_buf_size);
}

int BufferState::PrivateBufferPolicy::AvailableFor(int vc) const
{
  int const used = _buffer_state->OccupancyFor(vc);
  return _vc_buf_size - used;""")]),
 ("bufstate_isfull_viaavail", "booksim", BS + "buffer_state.cpp", [("""  return (_buffer_state->OccupancyFor(vc) >= _vc_buf_size);
}

int BufferState::PrivateBufferPolicy::A""", """  return AvailableFor(vc) <= 0;
}

int BufferState::PrivateBufferPolicy::A""")]),
 ("bufstate_ctor_split", "booksim", BS + "buffer_state.cpp", [("""  _shared_buf_size = _buf_size;
  for(int i = 0; i < num_private_bufs; ++i) {
    _shared_buf_size -= _private_buf_size[i];
    assert(start_vc[i] <= end_vc[i]);
""", """  int remaining = _buf_size;
  for(int i = 0; i < num_private_bufs; ++i) {
    remaining -= _private_buf_size[i];
  }
  _shared_buf_size = remaining;
  for(int i = 0; i < num_private_bufs; ++i) {
    assert(start_vc[i] <= end_vc[i]);
""")]),
 ("bufstate_ctor_ternary", "booksim", BS + "buffer_state.cpp", [("""  if(buf_size <= 0) {
    _vc_buf_size = config.GetInt("vc_buf_size");
  } else {
    _vc_buf_size = buf_size / vcs;
  }
  assert(_vc_buf_size > 0);
}

void BufferState::PrivateBufferPolicy::SendingFlit(Flit const * const f)
{
  int const vc = f->vc;
  if(_buffer_state->OccupancyFor(vc) > _vc_buf_size) {""", """  _vc_buf_size = (buf_size > 0) ? (buf_size / vcs) : config.GetInt("vc_buf_size");
  assert(_vc_buf_size > 0);
}

void BufferState::PrivateBufferPolicy::SendingFlit(Flit const * const f)
{
  int const vc = f->vc;
  bool const overflow = _vc_buf_size < _buffer_state->OccupancyFor(vc);
  if(overflow) {""")]),
 ("iq_receive_guard", "booksim", BS + "routers/iq_router.cpp", [("""    Flit * const f = _input_channels[input]->Receive();
    if(f) {

#ifdef TRACK_FLOWS
      ++_received_flits[f->cl][input];
#endif

      if(f->watch) {
	*gWatchOut << GetSimTime() << " | " << FullName() << " | "
		   << "Received flit " << f->id
		   << " from channel at input " << input
		   << "." << endl;
      }
      _in_queue_flits.insert(make_pair(input, f));
      activity = true;
    }
  }""", """    Flit * const f = _input_channels[input]->Receive();
    if(f == NULL) {
      continue;
    }
    if(f->watch) {
	*gWatchOut << GetSimTime() << " | " << FullName() << " | "
		   << "Received flit " << f->id
		   << " from channel at input " << input
		   << "." << endl;
    }
    activity = true;
    _in_queue_flits.insert(make_pair(input, f));
  }""")]),
 ("iq_step_helper", "booksim", BS + "routers/iq_router.cpp", [("""  if(_hold_switch_for_packet) {
    if(!_sw_hold_vcs.empty())
      _SWHoldEvaluate( );
  }
""", """  if(_hold_switch_for_packet && !_sw_hold_vcs.empty()) {
    _SWHoldEvaluate( );
  }
"""), ("""  if(!_route_vcs.empty()) {
    _RouteUpdate( );
    activity = activity || !_route_vcs.empty();
  }
  if""", """  if(!_route_vcs.empty()) {
    _RouteUpdate( );
    if(!_route_vcs.empty()) activity = true;
  }
  if""")]),
 ("iq_queue_local", "booksim", BS + "routers/iq_router.cpp", [("""	if(_speculative) {
	  _sw_alloc_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc),
							  -1)));
	}
	if(_vc_allocator) {
	  _vc_alloc_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc), 
							  -1)));
	}
	if(_noq) {
	  _UpdateNOQ(input, vc, f);
	}
      }
    } else if(""", """	pair<int, int> const in_vc(input, vc);
	if(_vc_allocator) {
	  _vc_alloc_vcs.push_back(make_pair(-1, make_pair(in_vc, -1)));
	}
	if(_speculative) {
	  _sw_alloc_vcs.push_back(make_pair(-1, make_pair(in_vc, -1)));
	}
	if(_noq) {
	  _UpdateNOQ(input, vc, f);
	}
      }
    } else if("""), ("""      if(_switch_hold_vc[input*_input_speedup + vc%_input_speedup] == vc) {
	_sw_hold_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc),
						       -1)));
      } else {
	_sw_alloc_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc), 
							-1)));
      }
    }
  }
  _in_queue_flits.clear();""", """      int const expanded = input*_input_speedup + vc%_input_speedup;
      if(_switch_hold_vc[expanded] != vc) {
	_sw_alloc_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc), 
							-1)));
      } else {
	_sw_hold_vcs.push_back(make_pair(-1, make_pair(make_pair(input, vc),
						       -1)));
      }
    }
  }
  _in_queue_flits.clear();""")]),
 ("islip_locals_skip", "booksim", BS + "allocators/islip.cpp", [("""      if ( ( _out_req[output].empty( ) ) ||
	   ( _outmatch[output] != -1 ) ) {
	continue;
      }
""", """      if ( _out_req[output].empty( ) ) {
	continue;
      }
      if ( _outmatch[output] != -1 ) {
	continue;
      }
""")]),
 ("islip_while_for", "booksim", BS + "allocators/islip.cpp", [("""      p = _out_req[output].begin( );
      while( ( p != _out_req[output].end( ) ) &&
	     ( p->second.port < input_offset ) ) {
	p++;
      }
""", """      for ( p = _out_req[output].begin( );
	    ( p != _out_req[output].end( ) ) && ( p->second.port < input_offset );
	    ++p ) {
      }
""")]),
 ("islip_swap_updates", "booksim", BS + "allocators/islip.cpp", [("""	  _inmatch[input]   = output;
	  _outmatch[output] = input;

	  // Only update pointers if accepted during the 1st iteration
	  if ( iter == 0 ) {
	    _gptrs[output] = ( input + 1 ) % _inputs;
	    _aptrs[input]  = ( output + 1 ) % _outputs;
	  }
""", """	  if ( iter == 0 ) {
	    _aptrs[input]  = ( output + 1 ) % _outputs;
	    _gptrs[output] = ( input + 1 ) % _inputs;
	  }
	  _outmatch[output] = input;
	  _inmatch[input]   = output;
""")]),
 ("rrarb_guard_invert", "booksim", BS + "arbiters/roundrobin_arb.cpp", [("""  if(!_request[input].valid || (_request[input].pri < pri)) {
    if((_num_reqs == 0) || 
       Supersedes(input, pri, _best_input, _highest_pri, _pointer,_size )) {
      _highest_pri = pri;
      _best_input = input;
    }
  }
""", """  bool const candidate = !_request[input].valid || (pri > _request[input].pri);
  bool const better = (_num_reqs == 0) ||
    Supersedes(input, pri, _best_input, _highest_pri, _pointer, _size);
  if(candidate && better) {
    _best_input = input;
    _highest_pri = pri;
  }
""")]),
 ("arb_clear_range", "booksim", BS + "arbiters/arbiter.cpp", [("""  if(_num_reqs > 0) {
    
    // clear the request vector
    for ( int i = 0; i < _size ; i++ )
      _request[i].valid = false ;
    _num_reqs = 0 ;
    _selected = -1;
  }""", """  if(_num_reqs <= 0) {
    return;
  }
  _selected = -1;
  _num_reqs = 0 ;
  int i = 0;
  while ( i < _size ) {
    _request[i].valid = false ;
    i++;
  }""")]),
 ("arb_arbitrate_nested", "booksim", BS + "arbiters/arbiter.cpp", [("""  if ( _selected != -1 ) {
    if ( id )
      *id  = _request[_selected].id ;
    if ( pri )
      *pri = _request[_selected].pri ;
  }
""", """  bool const granted = ( _selected != -1 );
  if ( granted && pri != NULL )
    *pri = _request[_selected].pri ;
  if ( granted && id != NULL )
    *id  = _request[_selected].id ;
""")]),
]
