import json,subprocess
P={'d9351c7':'R18','3ae92bc':'R08','b64959d':'R16','ff8a70a':'R16','acdc745':'R16','76493d5':'R16','b700afd':'R16','b7b33af':'R24','64504d7':'R24','983f983':'R13','246ba88':'R13','1ea07d5':'R13','c1b0756':'R13','f120f51':'R19','53b0e56':'R16','111c4ba':'R06','c65ce60':'R18','fe230f4':'R14','43e58eb':'R14','758aaa2':'R15','b1fb783':'R03','d750f1e':'R17','d67a101':'R12','034718f':'R12','0607ed5':'R23','0de60e2':'R20','d2112c4':'R16','1a241ed':'R16','70018d4':'R25','a4e3f43':'R22','30272a0':'R16','5850987':'R16','1ea463e':'R05','b46b4d6':'R05','385f649':'R05','1ce5c4d':'R20','5f38cea':'R20','3ed8b77':'R23','a416738':'R23','26a0d2c':'R04','bc073e0':'R05','fd3b058':'R11','0718981':'R13','e3b2e69':'R11','1e981b1':'R10','7133ddb':'R07','3ad11a7':'R07','e1d3e1d':'R08','93ebd50':'R08','79bb574':'R28','a9b03ce':'R28','34f2b71':'R28','22682c4':'R16','8d9a68e':'R29','94a06c9':'R16','27b95bf':'R16','76c1351':'R28','8634c55':'R28'}
W={
'94a06c9':'a read call modified the poll registration of a connection that the control message or packet ready callback had closed',
'27b95bf':'the subscriber went on reading (and re-armed) its multicast descriptor after a callback had deactivated the context',
'76c1351':'rmc_pub_write and rmc_sub_write aborted the process when called without a context, where all other calls return EINVAL',
'd9351c7':'a publisher that could be acknowledged only in part, its channel being full, stayed at the head of the acknowledgement list: publishers behind it were acknowledged late and the next timeout was reported wrongly',
'8634c55':'a multicast write on an inactive publisher released the queued packets to descriptor -1; an accept there failed with EBADF from a system call on descriptor -1',
'93ebd50':'circ_buf_trim measured the new end from the wrong place once data did not start at offset 0: later reads returned foreign bytes',
'e1d3e1d':'circ_buf_read_offset with an offset into a wrapped second segment returned bytes from the wrong place',
'3ad11a7':'sub_oldest_unacknowledged_packet looked at one interval only and reported a later arrival time than the oldest',
'7133ddb':'extending an interval next to the largest packet number overflowed and merged wrongly',
'1e981b1':'pub_get_timed_out_packets started with the newest packet and stopped at the first one not timed out: older ones were never resent',
'e3b2e69':'a control message wrapping in the circular buffer got its second part from the wrong address',
'0718981':'an ACK_INTERVAL command with a huge interval kept the publisher in a loop for up to 2^64 rounds',
'fd3b058':'the control message callback of a new publisher was uninitialised',
'bc073e0':'announcement payloads lived on the stack of the function that queued them (use after return)',
'26a0d2c':'packets sent while nobody was subscribed were never released',
'a416738':'callbacks did not get the current user data',
'3ed8b77':'packets held back when a subscription ended were released with the wrong user data',
'5f38cea':'rmc_sub_close_connection accepted any index and read outside the connection table, or closed twice',
'1ce5c4d':'a closed subscription left its pending acknowledgements behind for the next one on the slot',
'385f649':'rmc_sub_packet_dispatched never freed the packet',
'b46b4d6':'deactivating a subscriber leaked the payloads not yet dispatched',
'1ea463e':'deleting contexts leaked packets, subscribers, publishers, connection vectors',
'5850987':'deactivating an inactive context closed descriptor -1/0; active ones were closed before poll removal',
'30272a0':'activating an active publisher leaked its descriptors',
'a4e3f43':'a failing multicast bind leaked the socket',
'70018d4':'log calls changed errno, which callers tested afterwards',
'1a241ed':'a failed connection was removed from poll twice',
'd2112c4':'a failing setsockopt on an accepted socket leaked the socket',
'0de60e2':'a connect that failed to open a socket left the highest index too large',
'0607ed5':'connect callbacks got the address in network byte order',
'034718f':'EAGAIN or EINTR on a TCP read closed the connection',
'd67a101':'a publisher kept a subscriber with an undecodable stream open and stopped consuming it',
'd750f1e':'a full channel to one subscriber ended the resend round for all later ones',
'b1fb783':'an announcement that was due made the publisher skip the resends of that timeout call',
'758aaa2':'an announcement arriving while a connect was in progress opened a second connection',
'43e58eb':'traffic stayed suspended when the departure of a subscriber released the packets',
'fe230f4':'new throttling thresholds were not applied to suspended traffic',
'c65ce60':'a publisher was sorted into the acknowledgement list before its packet was recorded: wrong order, late acknowledgements',
'111c4ba':'acknowledgements that met a full channel were dropped',
'53b0e56':'reading cancelled the write interest of a subscriber with unsent data',
'f120f51':'public calls with a null context crashed or reported success',
'c1b0756':'an oversized control message made the publisher wait for ever, waking on every poll',
'1ea07d5':'an empty control message declared an array of length 0 (undefined behaviour)',
'246ba88':'a resent packet larger than the buffer made the subscriber wait for ever',
'983f983':'packet number 0 on the control channel was delivered as data',
'64504d7':'the publisher waited in recvfrom when the datagram was gone',
'b7b33af':'the publisher waited in accept when the connection was gone',
'b700afd':'packets queued before activation were never sent',
'76493d5':'a failing accept left the listen descriptor unarmed',
'acdc745':'a failing multicast read left the descriptor unarmed',
'ff8a70a':'reading the multicast descriptor cancelled its write interest while packets were queued',
'b64959d':'a failing multicast send left the descriptor unarmed',
'79bb574':'an initialisation refused because of a malformed address leaked the context and its connections',
'a9b03ce':'setting the TTL of a null context crashed',
'34f2b71':'the publisher did not set the operation result when it discarded a looped back datagram',
'8d9a68e':'a subscriber socket, bound to any address, also received the traffic of other groups and interfaces on its port that other sockets of the host had joined',
'22682c4':'deactivating a publisher stopped polling its multicast descriptor before the disconnect callbacks: a packet queued there modified a removed registration',
'3ae92bc':'circ_buf_alloc returned an empty first segment when the storage end was reached exactly; the command byte was written through it',
}
log=subprocess.run(['git','-C','/repo','log','--reverse','--format=%h'],capture_output=True,text=True).stdout.split()[1:]
fixed=[]
for h in log:
    assert h in P and h in W,h
    fixed.append('fixed: property=%s %s %s'%(P[h],h,W[h]))
d={'findings':[
 {'id':'KF1','property':'R03','history':'a subscription whose first owed packet (the lowest packet number multicast after the publisher accepted the connection) is lost by multicast while a later one arrives; scripted as case kind kf1',
  'what':'the first packet multicast to a new subscription is lost and the second arrives: the stream starts at the second, and the TCP resend of the first is discarded as a duplicate, so the application never gets it',
  'why_not_fixed':'the subscriber cannot know which number it was owed first: the protocol has no field for it (PROTOCOL.md\'s INIT was never implemented)'},
 {'id':'KF2','property':'R03','history':'a packet that was multicast before the publisher accepted the subscription, but after the subscriber saw its connection established, is received, and a later one, also sent before the accept, is lost; scripted as case kind kf2',
  'what':'a subscription starts with a packet sent before the publisher accepted it and the next such packet is lost: nobody owes the missing one, so everything after the gap is held back for ever',
  'why_not_fixed':'needs the same protocol change as KF1'}],
 'fixed':fixed}
json.dump(d,open('/verif/known_findings.json','w'),indent=1)
