IM = "libimaildir/imaildir.c"
# M03: file in place before the record
mut("M03", IM, """    PROP_GO(&e, m->log->update_msg(m->log, msg), fail_path);

    /* TODO: throw""", """    /* TODO: throw""")
# update distributed before the flags are logged
mut("M03", IM, """    if(msg->state == MSG_FILLED){
        PROP(&e, m->log->update_msg(m->log, msg) );
    }else{
        // remember that we gave out this modseq number
        PROP(&e, m->log->set_explicit_modseq_dn(m->log, msg->mod.modseq) );
    }

    // send update to each dn_t
    PROP(&e, distribute_update_meta(m, msg) );
""", """    // send update to each dn_t
    PROP(&e, distribute_update_meta(m, msg) );

    if(msg->state == MSG_FILLED){
        PROP(&e, m->log->update_msg(m->log, msg) );
    }else{
        // remember that we gave out this modseq number
        PROP(&e, m->log->set_explicit_modseq_dn(m->log, msg->mod.modseq) );
    }
""")
mut("M03", IM, """    if(msg->state == MSG_FILLED){
        PROP(&e, m->log->update_msg(m->log, msg) );
    }else{
        // remember""", """    if(msg->state == MSG_FILLED){
        if(!link_list_isempty(&m->dns)) PROP(&e, m->log->update_msg(m->log, msg) );
    }else{
        // remember""")
mut("M03", IM, """        finalize_msg(m, msg);
        PROP(&e, m->log->update_msg(m->log, msg) );
        // maybe send""", """        finalize_msg(m, msg);
        // maybe send""")
mut("M03", IM, """    }else if(expunge->state != MSG_EXPUNGE_PUSHED){
        expunge->state = MSG_EXPUNGE_PUSHED;
        // update the log
        PROP(&e, m->log->update_expunge(m->log, expunge) );
    }
""", """    }else if(expunge->state != MSG_EXPUNGE_PUSHED){
        expunge->state = MSG_EXPUNGE_PUSHED;
    }
""")
mut("M03", IM, """        if(modseq) jsw_ainsert(&m->mods, &expunge->mod.node);
        // update the log
        PROP(&e, m->log->update_expunge(m->log, expunge) );
""", """        if(modseq) jsw_ainsert(&m->mods, &expunge->mod.node);
        // update the log
        if(uid_dn) PROP(&e, m->log->update_expunge(m->log, expunge) );
""")
# behaviour preserving
mut("M03", IM, """    msg_t *msg = CONTAINER_OF(node, msg_t, node);

    // look for an existing msg_expunge_t
    node = jsw_afind(&m->expunged, &key, NULL);
    msg_expunge_t *expunge = CONTAINER_OF(node, msg_expunge_t, node);
""", """    msg_t *msg = CONTAINER_OF(node, msg_t, node);

    // look for an existing msg_expunge_t
    jsw_anode_t *node2 = jsw_afind(&m->expunged, &key, NULL);
    msg_expunge_t *expunge = NULL;
    if(node2 != NULL) expunge = CONTAINER_OF(node2, msg_expunge_t, node);
""", expect=0)
# M04
mut("M04", IM, "return ++m->hi_uid_dn;", "return m->hi_uid_dn++;")
mut("M04", IM, "return ++m->hi_uid_dn;", "return m->hi_uid_dn + 1;")
mut("M04", IM, "return ++m->hi_uid_local;", "m->hi_uid_local += 1;\n    return m->hi_uid_local;", expect=0)
mut("M04", IM, "return ++m->hi_uid_local;", "unsigned int u = m->hi_uid_local + 1;\n    m->hi_uid_local = u;\n    return u;", expect=0)
mut("M04", IM, """        detect_hi_uid_dn(m, expunge->uid_dn);
        detect_hi_uid_local(m, expunge->key.uid_local);
""", """        detect_hi_uid_local(m, expunge->key.uid_local);
""")
mut("M04", IM, """        detect_hi_uid_dn(m, msg->uid_dn);
        detect_hi_uid_local(m, msg->key.uid_local);
""", """        if(msg->state == MSG_UNFILLED) continue;
        detect_hi_uid_dn(m, msg->uid_dn);
        detect_hi_uid_local(m, msg->key.uid_local);
""")
mut("M04", IM, """        detect_hi_uid_dn(m, msg->uid_dn);
        detect_hi_uid_local(m, msg->key.uid_local);
""", """        if(msg->uid_dn > m->hi_uid_dn) m->hi_uid_dn = msg->uid_dn;
        m->hi_uid_local = MAX(msg->key.uid_local, m->hi_uid_local);
""", expect=0)
mut("M04", IM, "KEY_LOCAL(next_uid_local(m))", "KEY_LOCAL(m->hi_uid_local)")
mut("M04", IM, "KEY_LOCAL(next_uid_local(m))", "KEY_LOCAL(++m->hi_uid_local)", expect=0)
mut("M04", IM, "    if(uid_dn > m->hi_uid_dn){", "    if(uid_dn){")
mut("M04", IM, "    if(uid_dn > m->hi_uid_dn){", "    if(m->hi_uid_dn < uid_dn){", expect=0)
mut("M04", IM, "    msg->mod.modseq = next_himodseq_dn(m);\n\n    // reinsert into mods", "    msg->mod.modseq = m->himodseq_dn;\n\n    // reinsert into mods")
mut("M04", "libimaildir/log_file.c", "                *himodseq_dn = MAX(*himodseq_dn, temp);", "                *himodseq_dn = temp;")
mut("M04", "libimaildir/log_file.c", "        *himodseq_dn = MAX(*himodseq_dn, mod->modseq);", "        if(*himodseq_dn == 1) *himodseq_dn = mod->modseq;")
# M05
mut("M05", IM, """    while((link = link_list_pop_first(&m->predns)) != NULL){
        dn_t *dn = CONTAINER_OF(link, dn_t, link);
        dn_imaildir_failed(dn);
    }
}""", "}")
mut("M05", IM, """    while((link = link_list_pop_first(&m->dns)) != NULL){
        dn_t *dn = CONTAINER_OF(link, dn_t, link);
        dn_imaildir_failed(dn);
    }
    // dns""", """    while((link = link_list_pop_first(&m->dns)) != NULL){
        dn_t *dn = CONTAINER_OF(link, dn_t, link);
        if(!dn->examine) dn_imaildir_failed(dn);
    }
    // dns""")
mut("M05", IM, """    if(!is_error(e)) return;
    do_fail(m);
""", """    if(!is_error(e)) return;
    if(m->naccessors > 1) do_fail(m);
""")
mut("M05", IM, """        TRACE_ORIG(&e, E_IMAILDIR, "reselect failed");
        imaildir_maybe_fail(m, e);
        return e;""", """        ORIG(&e, E_IMAILDIR, "reselect failed");""")
mut("M05", IM, "    PROP_GO(&e, m->log->set_himodseq_up(m->log, himodseq), fail);\n    return e;", "    PROP(&e, m->log->set_himodseq_up(m->log, himodseq));\n    return e;")
mut("M05", IM, """    // any failure to send updates is a consistency failure for the imaildir_t
    imaildir_maybe_fail(m, e);
""", """    if(requester) imaildir_maybe_fail(m, e);
""")
mut("M05", "libimaildir/up.c", "    up->m = NULL;\n    // let go", "    // let go")
mut("M05", "libimaildir/dn.c", "    dn->m = NULL;\n", "")
mut("M05", "libimaildir/up.c", "    if(up->m == NULL) return e;\n", "")
mut("M05", "libimaildir/dn.c", "    PROP(&e, healthcheck(dn) );\n", "")
mut("M05", IM, """    while((link = link_list_pop_first(&m->ups)) != NULL){
        up_t *up = CONTAINER_OF(link, up_t, link);
        up_imaildir_failed(up);
    }
    while((link""", """    for(link = link_list_pop_first(&m->ups); link; link = link_list_pop_first(&m->ups)){
        up_imaildir_failed(CONTAINER_OF(link, up_t, link));
    }
    while((link""", expect=0)
# M06
DM = "libimaildir/dirmgr.c"
mut("M06", DM, """    if(!dirmgr_name_valid(&dst->name))
""", """    if(!dst->name.len)
""")
mut("M06", DM, "        if(elem.len == 0) return false;\n", "")
mut("M06", DM, """        if(!dstr_cmp(&elem, &DSTR_LIT(".."))) return false;
""", "")
mut("M06", DM, """    } while(split.len > 1);

    return true;""", """        if(split.len > 1 && rest.len == 0) return true;
    } while(split.len > 1);

    return true;""", expect=0)
mut("M06", DM, """        if(elem.len == 0) return false;
        if(elem.len > 255""", """        if(elem.len == 0) return false;
        if(elem.data[0] == '~') continue;
        if(elem.len > 255""")
mut("M06", DM, """    if(!dirmgr_name_valid(&name)){
        ORIG(""", """    if(name.len && name.data[0] == '.' && !dirmgr_name_valid(&name)){
        ORIG(""")
mut("M06", DM, """    // never let a client-provided name lead outside of the dirmgr's path
    if(!dirmgr_name_valid(name)){
        ORIG(&e, E_PARAM, "invalid mailbox name (%x)", FD_DBG(*name));
    }

    // check if we already have a hold""", """    // check if we already have a hold""")
mut("M06", DM, """        if(elem.len == 0) return false;
        if(elem.len > 255) return false;
        if(!dstr_cmp(&elem, &DSTR_LIT("."))) return false;
        if(!dstr_cmp(&elem, &DSTR_LIT(".."))) return false;
        if(!dstr_cmp(&elem, &DSTR_LIT("cur"))) return false;
        if(!dstr_cmp(&elem, &DSTR_LIT("tmp"))) return false;
        if(!dstr_cmp(&elem, &DSTR_LIT("new"))) return false;
""", """        bool bad = elem.len == 0 || elem.len > 255;
        if(bad || dstr_eq(elem, DSTR_LIT("cur")) || dstr_eq(elem, DSTR_LIT("tmp")) || dstr_eq(elem, DSTR_LIT("new"))) return false;
        if(dstr_eq(elem, DSTR_LIT(".")) || dstr_eq(elem, DSTR_LIT(".."))) return false;
""", expect=0)
# M08
mut("M08", IM, "        PROP_GO(&e, touch_path(&invalid_path), fail);\n", "")
mut("M08", IM, """        PROP_GO(&e, delete_all_msg_files(&m->path), fail);

        // empty in-memory structs
        free_trees(m);

        // cache is no longer invalid
        PROP_GO(&e, remove_path(&invalid_path), fail);
""", """        // cache is no longer invalid
        PROP_GO(&e, remove_path(&invalid_path), fail);

        PROP_GO(&e, delete_all_msg_files(&m->path), fail);

        // empty in-memory structs
        free_trees(m);
""")
mut("M08", IM, "    subdir_type_e subdirs[] = {SUBDIR_CUR, SUBDIR_NEW, SUBDIR_TMP};", "    subdir_type_e subdirs[] = {SUBDIR_CUR, SUBDIR_TMP};")
mut("M08", IM, """    if(is_invalid){
        // we""", """    if(is_invalid && read_files){
        // we""")
mut("M08", IM, """    // ignore directories
    if(is_dir) return e;

    string_builder_t path = sb_append(base, SBD(*name));

    PROP(&e, remove_path(&path) );
""", """    // ignore directories
    if(is_dir) return e;
    if(name->len && name->data[0] == '.') return e;

    string_builder_t path = sb_append(base, SBD(*name));

    PROP(&e, remove_path(&path) );
""")
mut("M08", IM, """        // delete the log from the filesystem
        PROP(&e, imaildir_log_rm(&path) );

        // delete message files from the filesystem
        PROP(&e, delete_all_msg_files(&path) );

        // cache is no longer invalid
        PROP(&e, remove_path(&invalid_path) );
""", """        // delete message files from the filesystem
        PROP(&e, delete_all_msg_files(&path) );

        // delete the log from the filesystem
        PROP(&e, imaildir_log_rm(&path) );

        // cache is no longer invalid
        PROP(&e, remove_path(&invalid_path) );
""", expect=0)
SC = "libcitm/sc.c"
mut("M09", SC, "    dirmgr_freeze_free(sc->freeze_deleting);\n    sc->freeze_deleting = NULL;\n", "    dirmgr_freeze_free(sc->freeze_deleting);\n")
mut("M09", SC, "    dirmgr_freeze_free(sc->freeze_deleting);\n    sc->freeze_deleting = NULL;\n", "    if(st->status == IE_ST_OK){\n        dirmgr_freeze_free(sc->freeze_deleting);\n        sc->freeze_deleting = NULL;\n    }\n")
mut("M09", SC, "    dirmgr_hold_free(sc->append_hold);\n\n", "\n") if False else None
mut("M09", SC, "    dirmgr_freeze_free(sc->freeze_rename_dst);\n    sc->freeze_rename_src = NULL;", "    sc->freeze_rename_src = NULL;")
mut("M09", SC, "&new, &sc->freeze_rename_dst", "&old, &sc->freeze_rename_dst")
mut("M09", SC, "    PROP(&e, dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src) );\n", "    if(!dstr_eq(old, new)) PROP(&e, dirmgr_freeze_new(sc->dirmgr, &old, &sc->freeze_rename_src) );\n")
mut("M09", SC, "    dirmgr_hold_release_imaildir(sc->append_hold, &m);\n    dirmgr_hold_free(sc->append_hold);", "    dirmgr_hold_free(sc->append_hold);")
mut("M09", SC, "fail:\n    dirmgr_hold_release_imaildir(sc->append_hold, &m);\n", "fail:\n")
mut("M09", SC, "    dirmgr_hold_free(sc->append_hold);\n    sc->append_hold = NULL;\n", "    dirmgr_hold_t *h = sc->append_hold;\n    sc->append_hold = NULL;\n    dirmgr_hold_free(h);\n", expect=0)
mut("M09", SC, "    dirmgr_freeze_free(sc->freeze_deleting);\n    dirmgr_freeze_free(sc->freeze_rename_src);", "    dirmgr_freeze_free(sc->freeze_rename_src);")
mut("M09", SC, "    dirmgr_hold_free(sc->append_hold);\n", "", count=9) if False else None
DG = "libimaildir/dirmgr.c"
mut("M09", DG, """    if(hashmap_gets(&dm->freezes, name) != NULL){
        ORIG(&e, E_FROZEN, "mailbox is frozen");
    }

    managed_dir_t *mgd;

    hash_elem_t *h = hashmap_gets(&dm->dirs, name);
    if(h != NULL){
        mgd = CONTAINER_OF(h, managed_dir_t, h);

        PROP(&e, dn_init""", """    managed_dir_t *mgd;

    hash_elem_t *h = hashmap_gets(&dm->dirs, name);
    if(h != NULL){
        mgd = CONTAINER_OF(h, managed_dir_t, h);

        PROP(&e, dn_init""")
mut("M09", DG, """    hash_elem_t *h = hashmap_gets(&dm->freezes, name);
    if(h != NULL){
        ORIG(&e,
            E_BUSY, "mailbox \\"%x\\" is frozen by another thread", FD_DBG(*name)
        );
    }

    // check""", """    hash_elem_t *h;
    // check""")
mut("M09", DG, "        hold->count++;\n", "")
mut("M09", DG, "    if(--hold->count) return;\n", "    if(hold->count-- > 1) return;\n", expect=0)
mut("M09", DG, "    hash_elem_remove(&freeze->h);\n    dstr_free", "    dstr_free")
mut("M09", DG, "        imaildir_forceclose(&mgd->m);\n        hash_elem_remove(&mgd->h);", "        hash_elem_remove(&mgd->h);")
mut("M09", DG, "    hash_elem_remove(&hold->h);\n    dstr_free", "    dstr_free")
mut("M09", IM, "cu_hold:\n    dirmgr_hold_free(hold);\n", "cu_hold:\n")
mut("M09", IM, "PROP_GO(&e, local_copy(m, keys, hold_m), cu_hold_m);", "PROP_GO(&e, local_copy(m, keys, hold_m), cu_hold);")
mut("M09", IM, "    dirmgr_hold_free(relay->hold);\n", "")

# ---- IMAP ---------------------------------------------------------------
DN = "libimaildir/dn.c"
SCC = "libcitm/sc.c"
AN = "libcitm/anon.c"
IS = "libcitm/imap_server.c"
IC = "libcitm/imap_client.c"
# no reply to a STORE which succeeded
mut("I01", DN, """    }else{
        PROP_GO(&e,
            send_ok(dn, &dn->store.tag, DSTR_LIT("as you wish"), &temp),
        cu);
    }
""", """    }else if(dn->store.silent){
        PROP_GO(&e,
            send_ok(dn, &dn->store.tag, DSTR_LIT("as you wish"), &temp),
        cu);
    }
""")
# reply in the begin and in the finish
mut("I01", DN, """        PROP_GO(&e,
            send_ok(dn, tagp, DSTR_LIT("noop STORE command"), &temp),
        cu);
        link_list_append_list(out, &temp);
        *ok = true;
        return e;""", """        link_list_append_list(out, &temp);
        *ok = true;
        return e;""")
mut("I01", SCC, """    sc->select_disconnected = false;
    sc->select_connected = false;
    sc->select_done = false;
    sc->select_success = false;
""", """    sc->select_disconnected = false;
    sc->select_connected = false;
    sc->select_success = false;
""")
mut("I01", SCC, """            if(!*ok) return e;
            PROP(&e, RESP_OK(tagp, "get offa my lawn!", out) );""", """            if(!*ok) break;
            if(sc->up_active) PROP(&e, RESP_OK(tagp, "get offa my lawn!", out) );""")
mut("I01", SCC, """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(!valid) break;
            // disconnect first""", """            PROP(&e, require_selected(sc, tagp, &valid) );
            // disconnect first""")
mut("I01", AN, """        case IMAP_CMD_NOOP:
            PROP_GO(&e, respond_noop(tag, out), cu);
            break;
""", """        case IMAP_CMD_NOOP:
            if(link_list_isempty(out)) PROP_GO(&e, respond_noop(tag, out), cu);
            break;
""")
mut("I01", IS, """            PROP_GO(&e, RESP_OK(tag, "zzz...", out), cu);
            break;
""", """            PROP_GO(&e, RESP_OK(tag, "zzz...", out), cu);
            // fallthrough
""")
# preserving
mut("I01", SCC, """    sc->passthru_pre = false;
    sc->passthru_sent = false;
    *okout = true;
""", """    *okout = true;
    sc->passthru_sent = false;
    sc->passthru_pre = false;
""", 0)
mut("I01", SCC, """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(!valid) break;
            PROP(&e, dn_expunge(&sc->dn, tagp, out, ok) );
            break;""", """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(valid){
                PROP(&e, dn_expunge(&sc->dn, tagp, out, ok) );
            }
            break;""", 0)
mut("I01", DN, """    }else{
        PROP_GO(&e,
            send_ok(dn, &dn->store.tag, DSTR_LIT("as you wish"), &temp),
        cu);
    }
""", """    }
    if(!st_resp){
        PROP_GO(&e,
            send_ok(dn, &dn->store.tag, DSTR_LIT("as you wish"), &temp),
        cu);
    }
""", 0)
# read-only
mut("I02", DN, """    if(dn->examine){
        PROP(&e, send_no(dn, tagp, DSTR_LIT("mailbox is read-only"), out) );
        *ok = true;
        return e;
    }

    ie_seq_set_t *uids_dn = NULL;
    msg_key_list_t *keys = NULL;""", """    ie_seq_set_t *uids_dn = NULL;
    msg_key_list_t *keys = NULL;""")
mut("I02", DN, "bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);", "bool ispeek = fetch_is_peek_only(dn->fetch.cmd);")
mut("I02", DN, "    if(!expunge || dn->examine){", "    if(!expunge){")
mut("I02", SCC, "bool examine = (type == IMAP_CMD_EXAMINE);", "bool examine = (type == IMAP_CMD_SELECT);")
mut("I02", SCC, "bool examine = (type == IMAP_CMD_EXAMINE);", "bool examine = (type == IMAP_CMD_EXAMINE) && !sc->dn_active;")
# preserving
mut("I02", SCC, "bool examine = (type == IMAP_CMD_EXAMINE);", "bool examine = type != IMAP_CMD_SELECT;", 0)
mut("I02", DN, "bool ispeek = dn->examine || fetch_is_peek_only(dn->fetch.cmd);", "bool ispeek = true;\n    if(!dn->examine) ispeek = fetch_is_peek_only(dn->fetch.cmd);", 0)
# states
mut("I03", SCC, """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(!valid) break;
            PROP(&e, dn_copy(""", """            PROP(&e, dn_copy(""")
mut("I03", SCC, """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(!valid) break;
            PROP(&e, dn_search(""", """            PROP(&e, require_selected(sc, tagp, &valid) );
            PROP(&e, dn_search(""")
mut("I03", SCC, """            PROP(&e, require_selected(sc, tagp, &valid) );
            if(!valid) break;
            PROP(&e, dn_search(&sc->dn, tagp, arg->search, out) );
            break;""", """            if(!sc->selected_mailbox){
                PROP(&e, require_selected(sc, tagp, &valid) );
                break;
            }
            PROP(&e, dn_search(&sc->dn, tagp, arg->search, out) );
            break;""", 0)
# STARTTLS
mut("I04", IC, """    imap_resp_reader_free(&c->reader);
    PROP(&e, imap_resp_reader_init(&c->reader, &c->exts) );

    // un-await""", """    // un-await""")
mut("I04", IC, """    // there must be no returned reads, since the client starts the handshake
    if(!link_list_isempty(&c->resps)){""", """    // there must be no returned reads, since the client starts the handshake
    if(!link_list_isempty(&c->resps) && c->read_started){""")
mut("I04", IS, "PROP_GO(&s->e, advance_reads(s, true, &ok), cu);", "PROP_GO(&s->e, advance_reads(s, s->starttls_started, &ok), cu);")
mut("I04", IS, "            dstr_leftshift(&s->rbuf, skip);", "            (void)skip;")
mut("I04", IC, """    imap_resp_reader_free(&c->reader);
    PROP(&e, imap_resp_reader_init(&c->reader, &c->exts) );

    // un-await our current stream
    c->stream->await(c->stream, NULL);
""", """    // un-await our current stream
    c->stream->await(c->stream, NULL);

    imap_resp_reader_free(&c->reader);
    PROP(&e, imap_resp_reader_init(&c->reader, &c->exts) );
""", 0)
CR = "libcrypto/crypto.c"
KD = "libcitm/keydir.c"
mut("C01", "libcitm/sc.c", "    ie_dstr_free(append->content);\n    append->content = STEAL(ie_dstr_t, &content);\n", "    if(content->dstr.len > append->content->dstr.len){\n        ie_dstr_free(append->content);\n        append->content = STEAL(ie_dstr_t, &content);\n    }\n")
mut("C01", "libcitm/sc.c", "    link_t *all_keys = sc->kd->all_keys(sc->kd);\n", "    link_t *all_keys = sc->kd->peers(sc->kd);\n")
mut("C01", "libcitm/sc.c", "    PROP_GO(&e, encrypter_finish(&ec, &content->dstr), cu_ec);\n", "    if(append->content->dstr.len) PROP_GO(&e, encrypter_finish(&ec, &content->dstr), cu_ec);\n")
mut("C01", KD, "    link_list_append(&kd->all_keys, &cpy->link);\n", "    if(link_list_isempty(&kd->all_keys)) link_list_append(&kd->all_keys, &cpy->link);\n")
mut("C01", KD, "    link_list_append(&kd->peers, &kp->link);\n    link_list_append(&kd->all_keys, &copy->link);\n", "    link_list_append(&kd->all_keys, &copy->link);\n    link_list_append(&kd->peers, &kp->link);\n", 0)
mut("C01", KD, "    link_list_append(&kd->all_keys, &kd->mykey->link);\n", "    if(kd->mykey->fingerprint->len > 32) link_list_append(&kd->all_keys, &kd->mykey->link);\n")
mut("C02", CR, "    if(dc->tag.len != CIPHER_TAG_LEN){", "    if(dc->tag.len > CIPHER_TAG_LEN){")
mut("C02", CR, "    if(dc->tag.len != CIPHER_TAG_LEN){", "    if(dc->tag.len == 0){")
mut("C02", CR, "if(dstr_eq_consttime(&hash, dc->kp->fingerprint)){", "if(!dstr_eq_consttime(&hash, dc->kp->fingerprint)){")
mut("C02", CR, "if(dstr_eq_consttime(&hash, dc->kp->fingerprint)){", "if(dstr_cmp(&hash, dc->kp->fingerprint) == 0){", 0)
mut("C02", CR, "                if(!dc->iv_found){\n", "                if(!dc->iv_found && !dc->key_found){\n")
mut("C02", CR, "    ret = EVP_OpenFinal(dc->ctx, bout, &outl);\n    if(ret != 1){", "    ret = EVP_OpenFinal(dc->ctx, bout, &outl);\n    if(ret < 0){")
mut("C03", CR, "if(leftover.len <= hash_len){", "if(leftover.len < hash_len){")
mut("C03", CR, "if(leftover.len <= key_len){", "if(leftover.len < key_len + 1){")
mut("C03", CR, "if(leftover.len <= key_len){", "if(key_len >= leftover.len){", 0)
mut("C03", CR, "if(iv_len != CIPHER_IV_LEN){", "if(iv_len < CIPHER_IV_LEN){")
mut("C03", CR, "size_t bytes_max = inl + CIPHER_BLOCK_SIZE - 1;", "size_t bytes_max = inl;", 0)
mut("C03", CR, "PROP_GO(&e, dstr_grow(out, out->len + bytes_max), fail);", "PROP_GO(&e, dstr_grow(out, bytes_max), fail);")
FW = "libcitm/fpr_watcher.c"
mut("C04", KD, """    PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, fpr), fail);

    PROP_GO(&e, _write_key(kd, pem, fpr), fail);
""", """    PROP_GO(&e, _write_key(kd, pem, fpr), fail);

    PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, fpr), fail);
""")
mut("C04", KD, "            PROP_GO(&e, inject_new_key_msg(kd, recip), cu);\n        }\n        PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, recip), cu);\n", "            DROP_CMD( inject_new_key_msg(kd, recip) );\n        }\n        PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, recip), cu);\n")
mut("C04", KD, "            PROP_GO(&e, inject_new_key_msg(kd, recip), cu);\n        }\n        PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, recip), cu);\n", "            PROP_GO(&e, inject_new_key_msg(kd, recip), cu);\n            PROP_GO(&e, fpr_watcher_add_fpr(&kd->fpr_watcher, recip), cu);\n        }\n")
mut("C04", FW, "    return w->xkeysynced;", "    return w->xkeysynced && w->synced.root;")
mut("C04", FW, "    jsw_aerase(&w->fprs, &fpr_bin);\n", "")
mut("C04", FW, "    PROP(&e, touch_path(&xkeysynced_path) );\n\n    w->xkeysynced = true;\n", "    w->xkeysynced = true;\n\n    PROP(&e, touch_path(&xkeysynced_path) );\n")
mut("C04", FW, "    PROP_GO(&e, save_fprs(&w->fprs, &w->path), fail);\n", "    DROP_CMD( save_fprs(&w->fprs, &w->path) );\n    if(0) goto fail;\n")
mut("C04", KD, "    cu);\n\ncu:\n    dirmgr_hold_release_imaildir(hold, &m);", "    cu);\n\ncu:\n    if(e.type == E_FS) DROP_VAR(&e);\n    dirmgr_hold_release_imaildir(hold, &m);", 1)
mut("C05", "libacme/reqs.c", "    IF_PROP(&e, dstr_read_path(&path, &account) ){\n        *acct = (acme_account_t){0};\n        goto cu;", "    IF_PROP(&e, dstr_read_path(&path, &account) ){\n        *acct = (acme_account_t){0};\n        return e;")
mut("C05", "libacme/jws.c", "    dstr_zeroize(&json_textbuf);\n", "    if(is_error(e)) dstr_zeroize(&json_textbuf);\n")
mut("C05", "libacme/jws.c", "    dstr_zeroize(&dbin);\n", "")
mut("C05", "libacme/jws.c", "    if(pvt) dstr_zeroize(&d);\n", "    if(!pvt) dstr_zeroize(&d);\n")
mut("C05", "libcli/ui.c", "    dstr_free0(&new_password);\n", "    dstr_free(&new_password);\n")
mut("C05", "libcitm/preuser.c", "    dstr_free0(&p->pass);\n", "    dstr_free(&p->pass);\n")
mut("C05", "libcitm/citm.c", "    dstr_zeroize(&pass);\n    dstr_free(&pass);\n", "    dstr_free(&pass);\n")
mut("C05", "libcitm/citm.c", "    dstr_zeroize(&pass);\n    dstr_free(&pass);\n", "    dstr_free0(&pass);\n", 0)
mut("C05", "libcli/console_input.c", "cu:\n    dstr_zeroize(&buf);\n    if(ttymode){", "    dstr_zeroize(&buf);\ncu:\n    if(ttymode){")
mut("C05", "libcrypto/networking.c", "    dstr_free0(&key);\n    return e;\n}\n\nderr_t ssl_context_new_server_path", "    dstr_free(&key);\n    return e;\n}\n\nderr_t ssl_context_new_server_path")
mut("C05", "api_client.c", "cu:\n    dstr_zeroize(&jmem);\n    api_token_free0(&token);", "    dstr_zeroize(&jmem);\ncu:\n    api_token_free0(&token);")
mut("C05", "libcrypto/crypto.c", "cu:\n    // erase the key material\n    dstr_zeroize(&pem);", "    // erase the key material\n    dstr_zeroize(&pem);\ncu:")
SM = "server/libsmsql.c"
mut("C06", CR, "    if(ret != 1){\n        ORIG(&e, E_SSL, \"RAND_bytes() failed", "    if(ret < 0){\n        ORIG(&e, E_SSL, \"RAND_bytes() failed")
mut("C06", "libdstr/system.c", "    if(amnt_read != count){\n        ORIG_GO(&e, E_OS, \"wrong number of bytes\", cu);\n    }\n", "    if(amnt_read > count){\n        ORIG_GO(&e, E_OS, \"wrong number of bytes\", cu);\n    }\n")
mut("C06", SM, "    PROP(&e, random_bytes(&secret_bytes, secret_bytes.size) );\n", "    IF_PROP(&e, random_bytes(&secret_bytes, secret_bytes.size) ) DROP_VAR(&e);\n")
mut("C06", SM, "    PROP(&e, random_bytes(&rando, rando.size) );\n", "    PROP(&e, FMT(&rando, \"%x%x\", FD(session_id), FI(now)) );\n")
mut("C06", SM, "        PROP(&e, random_uint(&token_temp) );\n\n        DSTR_STATIC(\n            q1,\n            \"INSERT INTO tokens", "        token_temp = (uint32_t)limit + 1000;\n\n        DSTR_STATIC(\n            q1,\n            \"INSERT INTO tokens")
mut("C06", SM, "    PROP(&e, random_bytes(uuid, SMSQL_UUID_SIZE) );", "    PROP(&e, dstr_append(uuid, &email) );")
mut("C06", SM, "    PROP(&e, random_password_salt(&salt) );\n\n    DSTR_VAR(hash", "    PROP(&e, dstr_append(&salt, &DSTR_LIT(\"0123456789abcdef\")) );\n\n    DSTR_VAR(hash")
mut("C06", SM, "    PROP(&e, new_api_secret(&secret_temp) );\n\n    for(size_t limit", "    DSTR_VAR(sec2, 33);\n    PROP(&e, random_bytes(&sec2, sec2.size) );\n    PROP(&e, bin2b64(&sec2, &secret_temp) );\n\n    for(size_t limit", 0)
mut("C06", "server/libkvpsync/send.c", "        PROP(&e, urandom_bytes(&d, d.size) );", "        sync_id = (uint32_t)rand();\n        (void)d;")

# E02
RQ = "libacme/reqs.c"
UI = "libcli/ui.c"
mut("E02", RQ, 'finalization failed (error=\\"%x\\")"', 'finalization failed (error=\\"%s\\")"')
mut("E02", "libduv/util.c", "(pid=%x)", "(%x, pid=%x)")
mut("E02", UI, 'FFMT_QUIET(stderr, "REST API call failed: \\"%x\\"\\n", FD(why));', "FFMT_QUIET(stderr, why.data, FD(why));")
mut("E02", "libcli/configure.c", 'ci->print(ci, "server already ready.\\n", NULL);', 'ci->print(ci, c->errbuf.data, NULL);' if 0 else 'ci->print(ci, "server %x ready.\\n", NULL);')
mut("E02", KD, "        PROP_GO(&e, FMT(&copy, fmtstr.data, FS(date_field)), cu);" if 0 else "    PROP_GO(&e, FMT(&copy, fmtstr.data, FS(date_field)), cu);", "    PROP_GO(&e, FMT(&copy, msg->data, FS(date_field)), cu);")
# E03
mut("E03", "api_client.c", """        JKEY("secret", JDCPY(&token->secret)),
        JKEY("token", JU(&token->key)),
    );
    PROP_GO(&e, jspec_read(jspec""", """        JKEY("token", JU(&token->key)),
        JKEY("secret", JDCPY(&token->secret)),
    );
    PROP_GO(&e, jspec_read(jspec""")
mut("E03", "libcitm/status_client.c", 'JKEYOPT("major", &have_smaj, JDCPY(&sc->status_maj)),', 'JKEYOPT("minor", &have_smaj, JDCPY(&sc->status_maj)),')
mut("E03", "libcitm/status_client.c", 'JKEYOPT("minor", &have_smin, JDCPY(&sc->status_min)),', 'JKEYOPT("minor", &have_smin, JDCPY(&sc->status_maj)),')
mut("E03", "libdstr/jspec.c", "&keytext, j->keys, j->nkeys, sizeof(*j->keys), cmpkeys", "&keytext, j->keys, j->nkeys - !!j->nkeys, sizeof(*j->keys), cmpkeys")
mut("E03", "libdstr/jspec.c", "    return dstr_cmp2(*a, *b);\n}\n\nderr_t jspec_object", "    return dstr_icmp2(*a, *b);\n}\n\nderr_t jspec_object")
mut("E03", "libdstr/jspec.c", """    const dstr_t *a = va;
    const dstr_t *b = vb;
    return dstr_cmp2(*a, *b);""", """    const dstr_t left = *(const dstr_t*)va, right = *(const dstr_t*)vb;
    return dstr_cmp2(left, right);""", 0)
# E07
mut("E07", "libimap/imf.c", "ie_body_t *new_part = NULL;", "ie_body_t *new_part;")
mut("E07", "libcitm/imap_client.c", "link_t ignore = {0};", "link_t ignore;")
mut("E07", "libacme/jws.c", "    DSTR_VAR(dbin, 32);\n    pub.data[pub.len++] = POINT_CONVERSION_UNCOMPRESSED;\n    PROP_GO(&e, b64url2bin(x, &pub), cu);\n    PROP_GO(&e, b64url2bin(y, &pub), cu);\n", "    pub.data[pub.len++] = POINT_CONVERSION_UNCOMPRESSED;\n    PROP_GO(&e, b64url2bin(x, &pub), cu);\n    PROP_GO(&e, b64url2bin(y, &pub), cu);\n    DSTR_VAR(dbin, 32);\n")
mut("E07", "libdstr/opt_parse.c", "    *newargc = argc - num_shifted;\n", "    if(num_shifted) *newargc = argc - num_shifted;\n")
mut("E07", SM, "    if(salt) PROP(&e, dstr_append(salt, &salt_result) );", "    if(salt) PROP(&e, dstr_append(salt, &salt_result) );\n    if(rounds && salt_result.len > 99) *rounds = 1;", 0)
# E08
mut("E08", UI, "            }else if(why_ok){", "            }else if(ok){")
mut("E08", UI, """    if(!contents_ok){
        ORIG_GO(&e, E_RESPONSE, "invalid server response", cu);
    }

    // now""", """    // now""")
mut("E08", "api_client.c", "            }else if(ok){\n                ORIG(&e, E_RESPONSE, \"api call failed: %x\"", "            }else{\n                ORIG(&e, E_RESPONSE, \"api call failed: %x\"")
mut("E08", "api_client.c", """    if(!contents_ok){
        jctx_error(ctx, "api response missing key: \\"contents\\"\\n");
        return e;
    }
""", """    if(!contents_ok){
        jctx_error(ctx, "api response missing key: \\"contents\\"\\n");
    }
""")
mut("E08", "libacme/jws.c", 'JKEY("kty", JDREF(&kty))', 'JKEYOPT("kty", &have_kty, JDREF(&kty))' if 0 else 'JKEYOPT("kty", &have_x, JDREF(&kty))', 1)
# E04
mut("E04", "libduv/stream.c", """    if(need_heapbufs(nbufs)){
        req->heapbufs = malloc(need_size);
        if(!req->heapbufs){
            ORIG(&e, E_NOMEM, "nomem");
        }
    }
    memcpy(get_bufs_ptr""", """    if(need_heapbufs(nbufs)){
        req->heapbufs = malloc(need_size);
    }
    memcpy(get_bufs_ptr""")
mut("E04", "server/dns/rrl.c", """    if(!rrl->buckets){
        ORIG(&e, E_NOMEM, "nomem");
    }
""", "")
mut("E04", CR, """    if(!kp) ORIG_GO(&e, E_NOMEM, "nomem", fail_refs);
    *kp = (keypair_t){ .pair = _kp->pair""", """    if(!_kp) ORIG_GO(&e, E_NOMEM, "nomem", fail_refs);
    *kp = (keypair_t){ .pair = _kp->pair""")
mut("E04", "libimaildir/msg.c", '    if(*view == NULL) ORIG(&e, E_NOMEM, "no mem");\n', '    if(view == NULL) ORIG(&e, E_NOMEM, "no mem");\n')
mut("E04", "server/dns/membuf.c", """    CHECK(&e);

    *membuf = (membuf_t){0};
    link_init(&membuf->link);
""", """    *membuf = (membuf_t){0};
    link_init(&membuf->link);
    CHECK(&e);
""")
mut("E04", "libdstr/hashmap.c", """    if(!h->buckets){
        ORIG(&e, E_NOMEM, "unable to allocate hashmap");
    }
""", """    hash_elem_t **buckets = h->buckets;
    if(buckets == NULL){
        ORIG(&e, E_NOMEM, "unable to allocate hashmap");
    }
""", 0)
mut("E04", "server/dns/rrl.c", """    *rrl = (rrl_t){
        .buckets = malloc(nbuckets),
        .nbuckets = nbuckets,
    };
    if(!rrl->buckets){
        ORIG(&e, E_NOMEM, "nomem");
    }
""", """    void *buckets = malloc(nbuckets);
    if(!buckets) ORIG(&e, E_NOMEM, "nomem");
    *rrl = (rrl_t){
        .buckets = buckets,
        .nbuckets = nbuckets,
    };
""", 0)
mut("E04", DN, "        const imf_hdrs_t *hdrs = loader_parse_hdrs(&e, &loader);\n        if(!is_error(e)){", "        const imf_hdrs_t *hdrs = loader_parse_hdrs(&e, &loader);\n        {")
# E05
mut("E05", "libdstr/fileops.c", "        if(amnt_read == 0) break;\n        PROP_GO(&e, dstr_write(fdout, &buffer), cu_fdout);", "        if(amnt_read == 0) break;\n        PROP_GO(&e, dstr_write(fdout, &buffer), cu_fdin);")
mut("E05", "libcitm/acme_manager.c", "    if(!x509) ORIG_GO(&e, E_SSL, \"failed to read certificate: %x\", cu, FSSL);", "    if(!x509) ORIG(&e, E_SSL, \"failed to read certificate: %x\", FSSL);")
mut("E05", "libimaildir/log_file.c", """        fclose(f2);
        f2 = NULL;

        PROP_GO(&e, drename_atomic_path(&tmppath, &path), cu);
    }

    // reopen the file""", """        fclose(f2);

        PROP_GO(&e, drename_atomic_path(&tmppath, &path), cu);
    }

    // reopen the file""")
mut("E05", KD, """fail:
    keypair_free(&kp);

    return e;
}

derr_t keydir_new(""", """fail:
    return e;
}

derr_t keydir_new(""")
mut("E05", CR, """    if(bio) BIO_free(bio);
    if(f) fclose(f);
    if(pkey) EVP_PKEY_free(pkey);
    return e;
#endif""", """    if(bio) BIO_free(bio);
    if(f) fclose(f);
    if(pkey && is_error(e)) EVP_PKEY_free(pkey);
    return e;
#endif""")
mut("E05", "libdstr/fileops.c", """    FILE *temp = *f;
    *f = NULL;

    if(!temp) return e;
""", """    FILE *temp = *f;
    if(!temp) return e;
""")
mut("E05", "libimaildir/log_file.c", """    if(!want_trunc){
        fclose(f);
        f = NULL;
    }else{""", """    if(!want_trunc){
        PROP_GO(&e, dfclose2(&f), cu);
    }else{""", 0)
mut("E05", "api_client.c", "    PROP_GO(&e, jdump(obj, WF(f), 2), cu);\n\n    // check error when closing writable file descriptor\n    PROP_GO(&e, dfclose2(&f), cu);", "    IF_PROP(&e, jdump(obj, WF(f), 2) ){\n        fclose(f);\n        f = NULL;\n        goto cu;\n    }\n\n    // check error when closing writable file descriptor\n    PROP_GO(&e, dfclose2(&f), cu);", 0)
mut("E05", "libimap/imf.c", "MIME message parsing", "MIME message  parsing", 0)
NW = "libcrypto/networking.c"
TL = "libduvtls/tls.c"
UV = "libcitm/uv.c"
ISV = "libcitm/imap_server.c"
ICL = "libcitm/imap_client.c"
mut("T01", NW, "    PROP_GO(&e, set_safe_protocol(out), cu);\n", "")
mut("T01", NW, "SSL_CTX_set_min_proto_version(ctx, TLS1_2_VERSION)", "SSL_CTX_set_min_proto_version(ctx, TLS1_VERSION)")
mut("T01", NW, "    PROP_GO(&e, set_safe_protocol(ctx->ctx), cleanup);\n", "    DROP_CMD( set_safe_protocol(ctx->ctx) );\n")
mut("T01", NW, "    PROP_GO(&e, set_safe_protocol(ctx->ctx), cleanup);\n", "    if(include_os) PROP_GO(&e, set_safe_protocol(ctx->ctx), cleanup);\n")
mut("T01", NW, "    PROP_GO(&e, set_safe_protocol(out), cu);\n", "    derr_t e2 = set_safe_protocol(out);\n    PROP_VAR_GO(&e, &e2, cu);\n", 0)
mut("T01", NW, "    // load SSL certificate location first", "    if(ncafiles) SSL_CTX_set_min_proto_version(ctx->ctx, TLS1_VERSION);\n    // load SSL certificate location first")
mut("T02", TL, "        int ret = SSL_set1_host(t->ssl, buf.data);\n        if(ret != 1){", "        int ret = SSL_set1_host(t->ssl, buf.data);\n        if(ret < 0){")
mut("T02", TL, "        SSL_set_verify(t->ssl, SSL_VERIFY_PEER, NULL);\n", "        if(!t->want_verify) SSL_set_verify(t->ssl, SSL_VERIFY_PEER, NULL);\n")
mut("T02", TL, "SSL_VERIFY_PEER, NULL", "SSL_VERIFY_NONE, NULL")
mut("T02", TL, "wrap(t, ssl_ctx, true, &verify_name, scheduler", "wrap(t, ssl_ctx, true, verify_name.len ? &verify_name : NULL, scheduler")
mut("T02", UV, ".remote_verify_name = dstr_from_off(remote.host),", ".remote_verify_name = DSTR_LIT(\"splintermail.com\"),")
mut("T02", UV, ".remote_verify_name = dstr_from_off(remote.host),", ".remote_verify_name = dstr_from_off(remote.scheme),")
mut("T02", "libhttp/duv_http.c", "        || !dstr_eq(m->host, req->host)\n", "")
mut("T02", NW, "    if(include_os){\n        PROP_GO(&e, ssl_context_load_from_os(ctx), cleanup);", "    if(include_os && !ncafiles){\n        PROP_GO(&e, ssl_context_load_from_os(ctx), cleanup);")
mut("T02", NW, "PROP(&e, ssl_context_new_client_ex(ctx, true, NULL, 0) );", "PROP(&e, ssl_context_new_client_ex(ctx, false, NULL, 0) );")
mut("T02", TL, "    // configure hostname verification\n    if(verify_name){\n        t->want_verify = true;", "    // configure hostname verification\n    t->want_verify = !!verify_name;\n    if(t->want_verify){", 0)
mut("T03", TL, "    if(!t->handshake_done) return true;\n\n    // Initially", "    // Initially")
mut("T03", TL, "                t->need_read = true;\n                return true;\n\n            case SSL_ERROR_WANT_WRITE:\n                // we use a membio, so this is an ENOMEM\n                TRACE_ORIG(&t->e, E_NOMEM, \"failed to write to write bio\");", "                t->need_read = true;\n                t->handshake_done = true;\n                return true;\n\n            case SSL_ERROR_WANT_WRITE:\n                // we use a membio, so this is an ENOMEM\n                TRACE_ORIG(&t->e, E_NOMEM, \"failed to write to write bio\");")
mut("T03", TL, "    if(t->want_verify){\n        /* man", "    if(t->want_verify && t->client && !t->need_read){\n        /* man", 0)
mut("T03", TL, "    if(t->want_verify){\n        /* man", "    if(t->want_verify && t->write_pending){\n        /* man")
mut("T03", TL, "                default:\n                    TRACE_ORIG(&t->e, E_SSL, \"SSL_read failed: %x\", FSSL);\n                    return false;", "                default:\n                    t->iface.eof = true;\n                    respond_all_eof(t);\n                    return !failing(t);")
mut("T03", TL, "        // read success!\n        read->buf.len = nread;", "        // read success!\n        read->buf.len = nread;\n", 0)
mut("T03", TL, "    if(closing(t)) goto closing;\n\n    // all the TLS", "    if(t->iface.canceled) goto closing;\n\n    // all the TLS")
mut("T03", TL, "    t->base->write(t->base, &t->write_req, &t->write_buf, 1, write_cb);\n", "    t->base->write(t->base, &t->write_req, &t->read_buf, 1, write_cb);\n")
mut("T03", TL, "    if(!_advance_ssl_do_handshake(t)) return false;\n\n    // no", "    _advance_ssl_do_handshake(t);\n\n    // no", 0)
mut("T04", UV, "if(l->security == IMAP_SEC_TLS && !l->ctx){", "if(l->security == IMAP_SEC_TLS && !l->ctx && !uv_citm->uvam){")
mut("T04", UV, "if(l->security == IMAP_SEC_STARTTLS && !l->ctx){", "if(l->security == IMAP_SEC_STARTTLS && !uc->conn.ctx && uv_citm->uvam){")
mut("T04", UV, "    if(l->security == IMAP_SEC_TLS && !l->ctx){", "    bool nocert = !l->ctx;\n    if(nocert && l->security == IMAP_SEC_TLS){", 0)
mut("T04", UV, "            .security = l->security,\n", "            .security = l->ctx ? l->security : IMAP_SEC_INSECURE,\n")
mut("T04", ISV, "    if(conn->security == IMAP_SEC_TLS){\n        dstr_t empty", "    if(conn->security == IMAP_SEC_TLS && conn->ctx){\n        dstr_t empty")
mut("T04", ISV, ".starttls = conn->security == IMAP_SEC_STARTTLS,", ".starttls = conn->security == IMAP_SEC_STARTTLS && !!conn->ctx,")
mut("T04", ISV, "        PROP_GO(&s->e, starttls(s), cu);\n        s->starttls_done = true;", "        s->starttls_done = true;\n        PROP_GO(&s->e, starttls(s), cu);")
mut("T04", ISV, "    while(s->starttls && !s->starttls_done){", "    while(s->starttls && !s->starttls_done && !s->broken_conn){", 0)
mut("T04", ICL, "    if(conn->security == IMAP_SEC_TLS){", "    if(conn->security == IMAP_SEC_TLS && conn->verify_name.len){")
mut("T04", ICL, "    while(c->starttls && !c->starttls_done){", "    while(c->starttls && !c->starttls_done && link_list_isempty(&c->writes)){")
mut("T04", ICL, "    if(!c->relay_started){\n        // at first", "    if(!c->greeting_done){\n        // at first")
mut("T04", "libcitm/citm.c", "    if(dstr_ieq(scheme, DSTR_LIT(\"starttls\"))){\n        *out = IMAP_SEC_STARTTLS;\n        return true;", "    if(dstr_ieq(scheme, DSTR_LIT(\"starttls\"))){\n        *out = IMAP_SEC_INSECURE;\n        return true;")
mut("T04", "libcitm/citm.c", "    *out = 0;\n    return false;", "    *out = 0;\n    return true;")
mut("T04", ISV, "    if(s->starttls){\n        capas", "    bool st = s->starttls;\n    if(st){\n        capas", 0)
AC = "api_client.c"
AM = "libcitm/acme_manager.c"
FP = "libcitm/fpr_watcher.c"
mut("A01", AC, """    // open the tempfile for writing
    PROP_GO(&e, dfopen(temp, "w", &f), cu);

    // write the file
    jdump_i *obj = DOBJ(
        DKEY("email\"""", """    // open the tempfile for writing
    PROP_GO(&e, dfopen(path, "w", &f), cu);
    temp = path;

    // write the file
    jdump_i *obj = DOBJ(
        DKEY("email\"""")
mut("A01", AC, """    PROP_GO(&e, FFMT(f, "%x\\n", FU(*nonce)), cu);
    PROP_GO(&e, dfclose2(&f), cu);

    // rename temp file into place
    PROP_GO(&e, drename_atomic(temp, path), cu);
""", """    PROP_GO(&e, FFMT(f, "%x\\n", FU(*nonce)), cu);

    // rename temp file into place
    PROP_GO(&e, drename_atomic(temp, path), cu);
    PROP_GO(&e, dfclose2(&f), cu);
""")
mut("A01", AC, """    PROP_GO(&e, jdump(obj, WF(f), 2), cu);

    // check error when closing writable file descriptor
    PROP_GO(&e, dfclose2(&f), cu);

    // rename temp file into place
    PROP_GO(&e, drename_atomic(temp, path), cu);

cu:
    if(f) fclose(f);
    dstr_free(&tempheap);
    return e;
}
derr_t installation_write_path""", """    derr_t e2 = jdump(obj, WF(f), 2);

    // check error when closing writable file descriptor
    PROP_GO(&e, dfclose2(&f), cu);

    // rename temp file into place
    PROP_GO(&e, drename_atomic(temp, path), cu);
    PROP_VAR_GO(&e, &e2, cu);

cu:
    if(f) fclose(f);
    dstr_free(&tempheap);
    return e;
}
derr_t installation_write_path""")
mut("A01", FP, "    PROP_GO(&e, dstr_write_path(&tmp_path, &out), cu);\n\n    // move it into place\n    string_builder_t fprs_path = FPRS_PATH(path);\n    PROP_GO(&e, drename_atomic_path(&tmp_path, &fprs_path), cu);",
    "    string_builder_t fprs_path = FPRS_PATH(path);\n    PROP_GO(&e, dstr_write_path(out.len > 4096 ? &tmp_path : &fprs_path, &out), cu);\n    if(out.len > 4096) PROP_GO(&e, drename_atomic_path(&tmp_path, &fprs_path), cu);")
mut("A01", FP, "    PROP_GO(&e, drename_atomic_path(&tmp_path, &synced_path), cu);", "    if(out.len) PROP_GO(&e, drename_atomic_path(&tmp_path, &synced_path), cu);")
mut("A01", AM, "    string_builder_t certnew = am_certnew(am);\n    PROP_GO(&e, dstr_write_path", "    string_builder_t certnew = am_cert(am);\n    PROP_GO(&e, dstr_write_path")
mut("A01", AM, """    e2 = json_parse(buf, &json);
    CATCH(&e2, E_PARAM){
        DUMP_DEBUG(e2);
        DROP_VAR(&e2);
        LOG_ERROR("ignoring corrupted order file\\n");
        return e;
    }else PROP_VAR(&e, &e2);
""", """    PROP(&e, json_parse(buf, &json) );
""")
mut("A01", AM, "            DROP_VAR(&e2);\n            goto regen;\n        }else PROP_VAR(&e, &e2);", "            DROP_VAR(&e2);\n            goto regen;\n        }\n        PROP_VAR(&e, &e2);", 0)
mut("A01", AC, "    // try reading the path\n    derr_t e2 = api_token_read(path, token);", "    derr_t e2;\n    // try reading the path\n    e2 = api_token_read(path, token);", 0)
mut("A02", AC, "    // increment nonce\n    token->nonce++;\n\n    // write back to path\n    PROP_GO(&e, api_token_write(*token, path), fail);", "    // write back to path\n    PROP_GO(&e, api_token_write(*token, path), fail);\n\n    // increment nonce\n    token->nonce++;")
mut("A02", AC, "    PROP_GO(&e, api_token_write(*token, path), fail);", "    DROP_CMD( api_token_write(*token, path) );")
mut("A02", AC, "    PROP_GO(&e, dfclose2(&f), cu);\n\n    // rename temp file into place\n    PROP_GO(&e, drename_atomic(temp, path), cu);\n\ncu:\n    if(f) fclose(f);\n    dstr_free(&tempheap);\n    return e;\n}\nderr_t nonce", "    PROP_GO(&e, dfclose2(&f), cu);\n\n    // rename temp file into place\n    if(ok) PROP_GO(&e, drename_atomic(temp, path), cu);\n\ncu:\n    if(f) fclose(f);\n    dstr_free(&tempheap);\n    return e;\n}\nderr_t nonce")
mut("A02", AM, "            PROP_GO(&e, pre_apic_call(am), cu);\n            am->min = STATUS_MIN_PREPARE_CHALLENGE;", "            if(!am->unprepare_sent) PROP_GO(&e, pre_apic_call(am), cu);\n            am->min = STATUS_MIN_PREPARE_CHALLENGE;")
mut("A02", AM, "            PROP_GO(&e, pre_apic_call(am), cu);\n            am->min = STATUS_MIN_PREPARE_CHALLENGE;", "            am->min = STATUS_MIN_PREPARE_CHALLENGE;\n            PROP_GO(&e, pre_apic_call(am), cu);", 0)
mut("A02", UI, "    bool need_password = !creds_found;", "    bool need_password = !creds_found && can_register;")
mut("A02", AC, "    PROP_GO(&e, apic_body(path, arg, &token.nonce, &apic->reqbody), fail);", "    PROP_GO(&e, apic_body(path, arg, NULL, &apic->reqbody), fail);")
mut("A03", AM, "    // does key.pem.new exist?\n    PROP(&e, exists_path(&keynew, &ok) );\n    if(ok){\n        // rename key\n        PROP(&e, drename_atomic_path(&keynew, &key) );\n    }\n\n    // rename cert\n    PROP(&e, drename_atomic_path(&certnew, &cert) );\n", "    // rename cert\n    PROP(&e, drename_atomic_path(&certnew, &cert) );\n\n    // does key.pem.new exist?\n    PROP(&e, exists_path(&keynew, &ok) );\n    if(ok){\n        // rename key\n        PROP(&e, drename_atomic_path(&keynew, &key) );\n    }\n")
mut("A03", AM, "        PROP(&e, drename_atomic_path(&keynew, &key) );", "        DROP_CMD( drename_atomic_path(&keynew, &key) );")
mut("A03", AM, "    PROP_GO(&e, rename_new_key_and_cert(am, true), fail);", "    PROP_GO(&e, rename_new_key_and_cert(am, order_ok), fail);")
mut("A03", AM, "            am->min = STATUS_MIN_GENERATE_KEY;\n            if(!nc->keygen_done) return e;\n            am->min = STATUS_MIN_FINALIZE_ORDER;\n            ami->finalize_from_valid", "            am->min = STATUS_MIN_FINALIZE_ORDER;\n            ami->finalize_from_valid")
mut("A03", AM, "    if(!nc->keygen_done){\n        am->min = STATUS_MIN_GENERATE_KEY;\n        return e;\n    }\n", "    if(!nc->keygen_done && am->reloaded && !nc->finalize.len){\n        am->min = STATUS_MIN_GENERATE_KEY;\n        return e;\n    }\n")
mut("A03", AM, "    MULTIPROP_VAR_GO(&am->e, done, &err);\n\n    nc->keygen_done = true;", "    nc->keygen_done = true;\n    MULTIPROP_VAR_GO(&am->e, done, &err);\n")
mut("A03", AM, "    bool ok;\n    PROP(&e, exists_path(&certnew, &ok) );\n    if(!ok) return e;\n", "    bool have;\n    PROP(&e, exists_path(&certnew, &have) );\n    if(!have) return e;\n    bool ok;\n", 0)
mut("A04", AC, "    CATCH(&e2, E_PARAM){\n        LOG_DEBUG(\"corrupted token file", "    CATCH_ANY(&e2){\n        LOG_DEBUG(\"corrupted token file")
mut("A04", AM, "    derr_t e2 = acme_account_from_path(&am->acct, acct);\n    CATCH(&e2, E_PARAM){", "    derr_t e2 = acme_account_from_path(&am->acct, acct);\n    CATCH_ANY(&e2){")
mut("A04", "libcitm/keydir.c", "        CATCH(&e2, E_PARAM){\n            // the key file", "        if(e2.type == E_PARAM || e2.type == E_OPEN){\n            // the key file")
mut("A04", "libcitm/keydir.c", "        CATCH(&e2, E_PARAM){\n            // the key file", "        bool broken = e2.type == E_PARAM;\n        if(broken){\n            // the key file", 0)
# S01
mut("S01", SM, 'DSTR_STATIC(query, "SELECT user_uuid from accounts where email = ?");', 'DSTR_VAR(query, 512);\n    PROP(&e, FMT(&query, "SELECT user_uuid from accounts where email = \'%x\'", FD(email)) );')
mut("S01", SM, "                int64_bind_in(&now),\n                string_bind_in(&session_id),\n                int_bind_in(&server_id)\n", "                string_bind_in(&session_id),\n                int64_bind_in(&now),\n                int_bind_in(&server_id)\n")
mut("S01", SM, "SELECT COUNT(*) FROM devices WHERE user_uuid=? FOR UPDATE", "SELECT MAX(fingerprint) FROM devices WHERE user_uuid=? FOR UPDATE")
mut("S01", SM, "            string_bind_in(&csrf),\n            string_bind_in(&session_id),\n", "            string_bind_in(&csrf),\n")
mut("S01", SM, 'DSTR_STATIC(query, "SELECT user_uuid from accounts where email = ?");', '/* look it up */ DSTR_STATIC(query, "SELECT user_uuid FROM accounts WHERE email=?");', expect=0)
# S02
mut("S02", SM, "    DSTR_STATIC(q1, \"INSERT INTO emails (email) VALUES (?)\");\n    PROP(&e, sql_norow_query(sql, q1, NULL, string_bind_in(&email)) );" if False else "        _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid),\n    hard_fail);\n\n    PROP(&e, sql_txn_commit(sql) );", "        _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid),\n    hard_fail);\n")
mut("S02", SM, "    PROP_GO(&e,\n        _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid),\n    hard_fail);", "    PROP(&e,\n        _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid)\n    );")
mut("S02", SM, """    PROP(&e, sql_txn_start(sql) );

    PROP_GO(&e,
        _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid),
    hard_fail);

    PROP(&e, sql_txn_commit(sql) );

    return e;

hard_fail:
    sql_txn_abort(sql);
""", """    PROP(&e, sql_txn_start(sql) );

    derr_t e2 = _validate_token_auth_txn(sql, token, nonce, payload, sig, uuid);
    if(is_error(e2)){
        sql_txn_abort(sql);
        PROP_VAR(&e, &e2);
    }

    PROP(&e, sql_txn_commit(sql) );
""", expect=0)
# S03
mut("S03", SM, "dstr_eq_consttime(&sig, &true_sig)", "dstr_eq(sig, true_sig)")
mut("S03", SM, "dstr_eq_consttime(&sig, &true_sig)", "dstr_eq_consttime(&true_sig, &sig)", expect=None) if False else None
# S04
mut("S04", SM, "    if(nonce <= old_nonce){\n        ORIG(&e, E_USERMSG, \"incorrect nonce\");\n    }\n    DSTR_STATIC(q2, \"UPDATE tokens", "    if(nonce < old_nonce){\n        ORIG(&e, E_USERMSG, \"incorrect nonce\");\n    }\n    DSTR_STATIC(q2, \"UPDATE tokens")
mut("S04", SM, "    if(nonce <= old_nonce){\n        ORIG(&e, E_USERMSG, \"incorrect nonce\");\n    }\n    DSTR_STATIC(q2, \"UPDATE tokens", "    bool fresh = nonce > old_nonce;\n    if(!fresh){\n        ORIG(&e, E_USERMSG, \"incorrect nonce\");\n    }\n    DSTR_STATIC(q2, \"UPDATE tokens", expect=0)
mut("S04", SM, "FROM tokens WHERE token=? FOR UPDATE", "FROM tokens WHERE token=?")
mut("S04", SM, "        if(void_res) session_voided = true;\n        if(last", "        session_voided = void_res;\n        if(last")
mut("S04", SM, "        if(last_seen_res > last_seen) last_seen = last_seen_res;\n", "        last_seen = last_seen_res;\n        if(server_id_res == server_id) break;\n")
mut("S04", SM, "        now > login_res + SMSQL_SESSION_HARD_TIMEOUT\n        || now", "        now > login_res + SMSQL_SESSION_HARD_TIMEOUT\n        && now")
mut("S04", SM, "    if(!ok || now > created + SMSQL_CSRF_TIMEOUT)", "    if(!ok || now < created + SMSQL_CSRF_TIMEOUT)")
mut("S04", SM, "WHERE csrf_id=? AND session_id=?", "WHERE csrf_id=? OR session_id=?")
mut("S04", SM, "    PROP(&e, validate_user_password(sql, *uuid, pass, &ok) );\n    if(!ok){", "    PROP(&e, validate_user_password(sql, *uuid, pass, &ok) );\n    if(!ok && pass.len){")
mut("S04", SM, "    PROP(&e, hmac(secret, payload, &true_sig) );", "    PROP(&e, hmac(secret, sig, &true_sig) );", count=1)
mut("S04", SM, "    if(timed_out) ORIG(&e, E_USERMSG, \"not logged in\");\n", "    if(timed_out) LOG_ERROR(\"not logged in\\n\");\n")
mut("S04", SM, "    if(!saw_any_row)\n        ORIG_GO(&e, E_USERMSG, \"not logged in\", cu);\n\n    // detect explicit logouts\n    if(session_voided)\n        ORIG_GO(&e, E_USERMSG, \"not logged in\", cu);\n", "    if(!saw_any_row || session_voided)\n        ORIG_GO(&e, E_USERMSG, \"not logged in\", cu);\n", expect=0)
mut("S04", SM, "static derr_t _validate_session_auth_txn(", "static bool past(time_t now, time_t then, time_t limit){\n    return now > then + limit;\n}\n\nstatic bool stale(time_t now, time_t login, time_t seen){\n    if(past(now, login, SMSQL_SESSION_HARD_TIMEOUT)) return true;\n    return past(now, seen, SMSQL_SESSION_SOFT_TIMEOUT);\n}\n\nstatic bool stale_nonce(uint64_t nonce, uint64_t old){\n    return nonce <= old;\n}\n\nstatic derr_t _validate_session_auth_txn(", expect=0) if False else None
mut("S04", SM, "    if(!ok || now > created + SMSQL_CSRF_TIMEOUT)", "    if(!ok) ORIG(&e, E_USERMSG, \"bad csrf token\");\n    time_t age = now - created;\n    if(age > SMSQL_CSRF_TIMEOUT)", expect=0)
mut("S04", SM, """derr_t validate_csrf(MYSQL *sql, const dstr_t session_id, const dstr_t csrf){
    derr_t e = E_OK;

    time_t now;
    PROP(&e, dtime(&now) );

    DSTR_STATIC(
        q1, "SELECT created FROM csrf WHERE csrf_id=? AND session_id=?"
    );
    bool ok;
    time_t created;
    PROP(&e,
        sql_onerow_query(
            sql, q1, &ok,
            // params
            string_bind_in(&csrf),
            string_bind_in(&session_id),
            int64_bind_out(&created)
        )
    );

    if(!ok || now > created + SMSQL_CSRF_TIMEOUT)""", """static bool expired(time_t now, time_t then, time_t limit){
    return now > then + limit;
}

derr_t validate_csrf(MYSQL *sql, const dstr_t session_id, const dstr_t csrf){
    derr_t e = E_OK;

    time_t now;
    PROP(&e, dtime(&now) );

    DSTR_STATIC(
        q1, "SELECT created FROM csrf WHERE csrf_id=? AND session_id=?"
    );
    bool ok;
    time_t created;
    PROP(&e,
        sql_onerow_query(
            sql, q1, &ok,
            // params
            string_bind_in(&csrf),
            string_bind_in(&session_id),
            int64_bind_out(&created)
        )
    );

    if(!ok || expired(now, created, SMSQL_CSRF_TIMEOUT))""", expect=0)
# S05
mut("S05", SM, '"DELETE FROM devices WHERE user_uuid=? AND fingerprint=?");', '"DELETE FROM devices WHERE (user_uuid=? OR 1=1) AND fingerprint=?");')
mut("S05", SM, '"SELECT paid FROM aliases WHERE alias=? AND user_uuid=?");\n    bool ok;\n    bool paid;\n    PROP(&e,\n        sql_onerow_query(\n            sql, q1, &ok,\n            // params\n            string_bind_in(&alias),\n            blob_bind_in(&uuid),', '"SELECT paid FROM aliases WHERE alias=?");\n    bool ok;\n    bool paid;\n    PROP(&e,\n        sql_onerow_query(\n            sql, q1, &ok,\n            // params\n            string_bind_in(&alias),')
mut("S05", SM, '    if(!ok){\n        ORIG(&e, E_USERMSG, "no such alias");\n    }\n', '    if(!ok) paid = false;\n')
mut("S05", SM, '"DELETE FROM aliases WHERE alias=?");\n    PROP(&e, sql_norow_query(sql, q2, NULL, string_bind_in(&alias)) );', '"DELETE FROM aliases WHERE alias=? AND user_uuid=?");\n    PROP(&e, sql_norow_query(sql, q2, NULL, string_bind_in(&alias), blob_bind_in(&uuid)) );', expect=0)
mut("S05", "server/pysm/pysm.c", "    PROP_GO(&e, delete_alias(&self->sql, uuid, alias), fail);", "    PROP_GO(&e, delete_alias(&self->sql, alias, uuid), fail);")
mut("S05", SM, '"SELECT public_key FROM devices where user_uuid=? AND fingerprint=?"', '"SELECT public_key FROM devices where fingerprint=?"')
mut("S05", SM, '"DELETE FROM tokens WHERE user_uuid=? AND token=?");', '"DELETE FROM tokens WHERE user_uuid!=? AND token=?");')
mut("S05", SM, '"DELETE FROM installations WHERE inst_uuid=?");', '"DELETE FROM installations WHERE subdomain=?");')
# S06
AP = "server/rest/app.py"
mut("S06", AP, 'password_auth(api.add_token)', 'regular_auth(api.add_token)')
mut("S06", AP, 'installation_auth(api.set_challenge)', 'regular_auth(api.set_challenge)')
mut("S06", AP, '        smsql.validate_csrf(auth.session, csrf)\n', '        if csrf:\n            smsql.validate_csrf(auth.session, csrf)\n')
mut("S06", AP, '    if auth.body.get("path") != auth.path:\n        return BadAuth("path of POST request does not match path in payload")\n', '    if "path" in auth.body and auth.body.get("path") != auth.path:\n        return BadAuth("path of POST request does not match path in payload")\n')
mut("S06", AP, '        status = check_token_auth(status, auth, smsql)\n', '        status = check_installation_auth(status, auth, smsql)\n        status = check_token_auth(status, auth, smsql)\n')
mut("S06", AP, '    except pysm.UserError as e:\n        return BadAuth(str(e))\n\n    return GoodAuth(uuid)\n\n\ndef check_token', '    except pysm.UserError as e:\n        uuid = smsql.get_uuid(auth.token)\n\n    return GoodAuth(uuid)\n\n\ndef check_token')
mut("S06", AP, 'class BadAuth(AuthStatus):', 'class BadAuth(GoodAuth):') if False else None
mut("S06", AP, '        if not isinstance(status, GoodAuth):\n            return HTTP("403 " + status.why)\n        return apicall(fn, status.uuid, arg, smsql)\n\n    return _fn\n\n\ndef regular', '        if isinstance(status, BadAuth):\n            return HTTP("403 " + status.why)\n        return apicall(fn, status.uuid, arg, smsql)\n\n    return _fn\n\n\ndef regular', expect=0)
mut("S06", AP, '        if not isinstance(status, GoodAuth):\n            return HTTP("403 " + status.why)\n        return apicall(fn, status.uuid, arg, smsql)\n\n    return _fn\n\n\ndef installation', '        if isinstance(status, BadAuth):\n            return HTTP("403 " + status.why)\n        return apicall(fn, status.uuid, arg, smsql)\n\n    return _fn\n\n\ndef installation', expect=1)
mut("S06", AP, '    body, ok = load_body(payload)', '    body, ok = load_body(environ["wsgi.input"].read(16384))')
mut("S06", AP, '    func = ROUTES.get(path)', '    func = ROUTES.get(body.get("path", path))')
mut("S06", AP, '    arg = body.get("arg")', '    arg = urllib.parse.parse_qs(environ.get("QUERY_STRING", "")).get("arg", [body.get("arg")])[0]')
mut("S06", "server/rest/api.py", '    smsql.delete_installation_by_token(uuid)', '    smsql.delete_installation(uuid, arg)')
mut("S06", AP, '    # check body/path agreement\n    if auth.body.get("path") != auth.path:\n        return BadAuth("path of POST request does not match path in payload")\n', '    signed_path = auth.body.get("path")\n    agree = signed_path == auth.path\n    if not agree:\n        return BadAuth("path of POST request does not match path in payload")\n', expect=0)
mut("S06", AP, '        status = check_installation_auth(status, auth, smsql)\n', '        status = require(check_installation_auth(status, auth, smsql))\n', expect=0) if False else None
DP = "server/dns/parse.c"
DD = "server/dns/dns.c"
DW = "server/dns/write.c"
mut("D01", DP, 'if(len < used + 12) return', 'if(len < used + 2) return')
mut("D01", DP, 'if(len < used + 1) return BP_LABEL_LEN_BYTE;', 'if(len < used) return BP_LABEL_LEN_BYTE;')
mut("D01", DP, 'if(len < used + 1) return BP_PTR_LEN_BYTE;', '')
mut("D01", DP, 'if(len < used + l) return BP_LABEL_OVERRUN;', '', expect=0)
mut("D01", DP, 'if(len < used + 4) return BP_QSTN_OVERRUN;', 'if(len < used + 3) return BP_QSTN_OVERRUN;')
mut("D01", DP, 'if(len < used + 10) return BP_RR_HDR_OVERRUN;', 'if(len < used + 8) return BP_RR_HDR_OVERRUN;')
mut("D01", DP, 'if(len < used + rdlen) return BP_RR_DATA_OVERRUN;', '')
mut("D01", DP, 'if(len < used + 4) return BP_ENDS_OPT_HDR_OVERRUN;', '')
mut("D01", DP, 'if(len < used + optlen) return BP_ENDS_OPT_DATA_OVERRUN;', '')
mut("D01", DP, 'size_t len = rr.rdoff + rr.rdlen;', 'size_t len = rr.rdoff + rr.rdlen + 4;')
mut("D01", DP, 'if(l > 63) return BP_LONG_LABEL;', '')
mut("D01", DP, 'if(was_ptr) return BP_DOUBLE_POINTER;', '', expect=0) if False else None
mut("D01", DP, 'it->pos = used + rr.rdlen;', 'it->pos = used;')
mut("D01", DP, 'return used + 1;\n        }else{', 'return used;\n        }else{')
mut("D01", DP, 'it->pos += 4 + optlen;', 'it->pos += 4 + optcode;')
mut("D01", DP, 'if(it->seen >= it->count) return NULL;', 'if(it->seen > it->count) return NULL;')
mut("D01", DP, 'if(it->seen == it->count) return NULL;', '')
mut("D01", DP, '    edns->optoff = rr.rdoff;', '    edns->optoff = rr.rdoff + 2;')
mut("D01", DP, '    rr->count = count;', '    rr->count = count + 1;')
mut("D01", DP, '.pos = edns.optoff,', '.pos = edns.udp_size,')
mut("D01", DP, 'pkt->hdr.nscount, ptr, len, used);', 'pkt->hdr.nscount, ptr, 512, used);')
mut("D01", DP, 'used = parse_rr(&pkt->ans, pkt->hdr.ancount, ptr, len, used);', 'used = parse_rr(&pkt->ans, pkt->hdr.ancount, ptr, len + 12, used);')
mut("D01", DP, '    if(is_bad_parse(used)) return used;\n\n    // detect edns', '    // detect edns')
mut("D01", DP, 'return after_ptr ? preptr_used : used;', 'return used;')
mut("D01", DP, 'preptr_used = used;\n            }\n            used =', '            }\n            preptr_used = used;\n            used =')
mut("D01", DP, '            .str = it->ptr + it->pos,', '            .str = it->ptr + it->pos + 1,')
mut("D01", DW, 'if(used + needed > cap) return used + needed;\n\n    // qname', '// qname')
mut("D01", DW, 'size_t needed = 5;  // qtype', 'size_t needed = 4;  // qtype')
mut("D01", DW, 'needed += l->len + 1;', 'needed += l->len;')
mut("D01", DW, 'static const size_t needed = 104;', 'static const size_t needed = 103;')
mut("D01", DW, 'static const size_t needed = 55;', 'static const size_t needed = 54;')
mut("D01", DW, 'const size_t rdlen = 1 + secret.len;', 'const size_t rdlen = secret.len;')
mut("D01", DW, 'static const size_t rdlen = 4;  // 32', 'static const size_t rdlen = 3;  // 32')
mut("D01", DW, 'if(used + DNS_HDR_SIZE > cap)', 'if(used > cap)')
mut("D01", DW, 'if(used + BARE_EDNS_SIZE > cap) return', 'if(used + BARE_EDNS_SIZE > cap + 1) return')
mut("D01", DD, '        rcap = MAX(rcap, 512);', '        rcap = MAX(rcap, 4096);')
mut("D01", DD, '    if(pkt.hdr.qdcount != 1) return 0;\n\n    /* save', '    /* save')
mut("D01", DD, 'rcap = MIN(rcap, pkt.edns.udp_size);', 'rcap = pkt.edns.udp_size;')
mut("D01", DD, 'size_t n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);', 'size_t n = labels_read_reverse(pkt.qstn.ptr, 0, rname, cap);')
mut("D01", DD, 'size_t n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap);', 'size_t n = labels_read_reverse(pkt.qstn.ptr, pkt.qstn.off, rname, cap + 1);')
mut("D01", "server/dns/main.c", '        sizeof(membuf->resp)\n', '        sizeof(*membuf)\n')
# behaviour preserving
mut("D01", DP, 'if(len < used + 12) return', 'if(used + 12 > len) return', expect=0)
mut("D01", DP, '    const uint8_t *uptr = (uint8_t*)ptr;\n    uptr += used;\n\n    if(len < used + 12) return BP_HDR_OVERRUN;', '    if(len < used + 12) return BP_HDR_OVERRUN;\n\n    const uint8_t *uptr = ((const uint8_t*)ptr) + used;', expect=0)
mut("D01", DP, '    it->pos += 4 + optlen;', '    it->pos = off + optlen;', expect=0)
mut("D01", DP, '        if(len < used + optlen) return BP_ENDS_OPT_DATA_OVERRUN;\n        used += optlen;', '        used += optlen;\n        if(used > len) return BP_ENDS_OPT_DATA_OVERRUN;', expect=0)
mut("D01", DP, '    for(uint16_t i = 0; i < count; i++){\n        used = parse_name(ptr, len, used);\n        if(is_bad_parse(used)) return used;\n        if(len < used + 10)', '    uint16_t i = 0;\n    while(i++ < count){\n        used = parse_name(ptr, len, used);\n        if(is_bad_parse(used)) return used;\n        if(len < used + 10)', expect=0)
mut("D01", DW, '    for(; l; l = labels_next(&it)){\n        needed += l->len + 1;\n    }', '    while(l){\n        needed += 1 + l->len;\n        l = labels_next(&it);\n    }', expect=0)
mut("D01", DW, '    static const size_t needed = 2 + RR_HDR_SIZE + rdlen;\n\n    if(used + needed > cap) return used + needed;\n    // name pointer\n    used = put_name_ptr(nameoff, out, used);\n    // rr header\n    used = put_rr_hdr(A, ', '    size_t end = used + 2 + RR_HDR_SIZE + rdlen;\n    if(end > cap) return end;\n    // name pointer\n    used = put_name_ptr(nameoff, out, used);\n    // rr header\n    used = put_rr_hdr(A, ', expect=0)
mut("D01", DD, '        rcap = MIN(rcap, pkt.edns.udp_size);\n        // don\'t allow edns to force packet size smaller than 512\n        rcap = MAX(rcap, 512);', '        size_t want = pkt.edns.udp_size;\n        if(want < 512) want = 512;\n        if(want < rcap) rcap = want;', expect=0)
mut("D01", DP, '        if((l & 0xC0) == 0xC0){\n            // pointer\n            if(was_ptr)', '        bool isptr = (l & 0xC0) == 0xC0;\n        if(isptr){\n            // pointer\n            if(was_ptr)', expect=0)
mut("D01", DP, '            if(namelen > 255) return BP_LONG_NAME;\n        }\n    } while(l);\n\n    return', '            if(namelen > 255) return BP_LONG_NAME;\n        }\n        if(!l) break;\n    } while(true);\n\n    return', expect=0)
mut("D01", DP, 'if(is_bad_parse(used)) return used;\n    const uint8_t *uptr = (uint8_t*)ptr;\n    qstn->off', 'const uint8_t *uptr = (uint8_t*)ptr;\n    qstn->off')
mut("D01", DP, '        used = parse_name(ptr, len, used);\n        if(is_bad_parse(used)) return used;\n    }', '        used = parse_name(ptr, len, used);\n    }')
mut("D01", DP, 'if(is_bad_parse(zret)) return zret;\n    if(zret == 1){', 'if(zret){', expect=0)
mut("D01", DD, '    if(is_bad_parse(pret)){', '    if(pret == BP_HDR_OVERRUN){')
mut("D01", "server/dns/parse.h", '(size_t)-14,\n\n', '(size_t)-13,\n\n')
mut("D01", "server/dns/main.c", '.len = sizeof(membuf->base) };', '.len = sizeof(*membuf) };')
DR = "server/dns/rrl.c"
DMN = "server/dns/main.c"
mut("D02", DD, 'if(pkt.hdr.qr != 0) return norespond;', '')
mut("D02", DD, 'if(pkt.hdr.opcode != 0) return norespond;', '')
mut("D02", DD, 'if(pkt.qstn.qclass != 1) return norespond;', 'if(pkt.qstn.qclass == 0) return norespond;')
mut("D02", DD, 'if(pkt.qstn.qtype == 0) return norespond;', '')
mut("D02", DD, 'if(!lstr_ieq(rname[2], LSTR("user"))) return norespond;', '')
mut("D02", DD, 'if(!lstr_ieq(rname[1], LSTR("splintermail"))) return norespond;', 'if(!lstr_ieq(rname[0], LSTR("splintermail")) && n > 5) return norespond;')
mut("D02", DD, 'lstr_ieq(rname[4], LSTR("_acme-challenge"))', 'lstr_ieq(rname[3], LSTR("_acme-challenge"))')
mut("D02", DD, 'if(n == 5 && lstr_ieq', 'if(n >= 5 && lstr_ieq')
mut("D02", DD, '    if(n < 3) return norespond;', '')
mut("D02", DD, 'if(secret.str == &C_UNSURE){', 'if(false){')
mut("D02", DD, 'return negative_resp(pkt, RCODE_SRVERR, aa, soa, out, cap);', 'return negative_resp(pkt, RCODE_OK, aa, soa, out, cap);')
mut("D02", DD, '    if(pkt.qstn.qtype != TXT){', '    if(pkt.qstn.qtype != TXT && pkt.qstn.qtype != SOA){')
mut("D02", DD, '        if(dsecret == UNSURE){\n            secret.str = &C_UNSURE;\n        }else if(dsecret){', '        if(dsecret && dsecret != UNSURE){')
mut("D02", DD, 'lstr_t rname[6] = {0};', 'lstr_t rname[5] = {0};', expect=0)
mut("D02", DD, '    if(is_bad_parse(pret)){', '    if(is_bad_parse(pret) && pret != BP_RR_DATA_OVERRUN){')
mut("D02", "server/dns/parse.h", '(size_t)-14,\n\n', '(size_t)-13,\n\n')
mut("D02", DP, 'return a.len == b.len && strncasecmp', 'return a.len >= b.len && strncasecmp')
mut("D02", DP, 'strncasecmp(a.str, b.str, a.len) == 0', 'strncmp(a.str, b.str, a.len) == 0')
mut("D02", DW, '.qr = 1, //', '.qr = hdr.qr, //')
mut("D02", DW, '.rd = hdr.rd,', '.rd = 0,')
mut("D02", DW, '.ra = 0, //', '.ra = hdr.ra | hdr.rd, //')
mut("D02", DW, '    used = put_uint16(hdr.id, out, used);', '    used = put_uint16(hdr.id & 0xfff, out, used);')
mut("D02", DW, 'put_rr_hdr(TXT, TXT_TTL, rdlen, out, used)', 'put_rr_hdr(TXT, TXT_TTL, secret.len, out, used)')
mut("D02", DW, 'static const size_t rdlen = 22;', 'static const size_t rdlen = 21;')
mut("D02", DW, 'if(used + needed > cap) return used + needed;\n    // name pointer\n    used = put_name_ptr(nameoff, out, used);\n    // rr header\n    used = put_rr_hdr(AAAA', 'if(used + needed > cap) return used;\n    // name pointer\n    used = put_name_ptr(nameoff, out, used);\n    // rr header\n    used = put_rr_hdr(AAAA')
mut("D02", DD, '    if(pkt.hdr.qdcount != 1) return 0;\n\n    /* save', '    /* save', expect=0)
mut("D03", DD, '        rcap = MIN(rcap, 512);\n', '')
mut("D03", DD, '        rcap = MAX(rcap, 512);', '')
mut("D03", DD, 'rcap = MIN(rcap, pkt.edns.udp_size);', 'rcap = MIN(rcap, UDP_MAX_SIZE);')
mut("D03", DD, '    used = write_qstn(pkt.qstn, out, cap - edns_resv, used);\n    if(used <= cap) len = used;\n\n    uint16_t ancount', '    used = write_qstn(pkt.qstn, out, cap - edns_resv, used);\n    len = used;\n\n    uint16_t ancount')
mut("D03", DD, '        used = writers[i](arg, DNS_HDR_SIZE, out, cap, used);\n        if(used <= cap){', '        used = writers[i](arg, DNS_HDR_SIZE, out, cap, used);\n        if(used){')
mut("D03", DR, '    if(count == 7){', '    if(count > 7){')
mut("D03", DR, '(window << 3) | (count + 1);', '(window << 3) | count;')
mut("D03", DR, '        rrl->buckets[hash] = (window << 3);\n', '')
mut("D03", DR, 'size_t hash = hash_addr(sa) % rrl->nbuckets;', 'size_t hash = hash_addr(sa) & rrl->nbuckets;')
mut("D03", DR, 'size_t hash = hash_addr(sa) % rrl->nbuckets;', 'size_t hash = sa->sa_family % rrl->nbuckets;')
mut("D03", DR, '    uint8_t stamp = (bucket >> 3) & 0x1f;', '    uint8_t stamp = (bucket >> 3) & 0xf;')
mut("D03", DMN, '        return e;\n    }\n\n    membuf_t *membuf = *membufp;', '        if(len < 64) return e;\n    }\n\n    membuf_t *membuf = *membufp;')
mut("D03", DMN, '.base = membuf->resp, .len = rlen };\n    PROP(&e, addr_copy', '.base = membuf->resp, .len = sizeof(membuf->resp) };\n    PROP(&e, addr_copy')
mut("D03", DMN, '.base = membuf->resp, .len = rlen };\n    PROP(&e, addr_copy', '.base = membuf->base, .len = rlen };\n    PROP(&e, addr_copy')
mut("D03", DMN, 'rrl_check(&g->rrl, src, g->now);', 'rrl_check(&g->rrl, (const struct sockaddr*)&g->peers[0], g->now);')
mut("D03", DR, '    if(stamp != window){\n        // reset bucket\n        rrl->buckets[hash] = (window << 3);\n        return true;\n    }\n    uint8_t count = bucket & 0x7;', '    uint8_t count = bucket & 0x7;\n    if(stamp != window){\n        rrl->buckets[hash] = (uint8_t)(window * 8);\n        return true;\n    }', expect=0)
mut("D03", DR, '    // increase count\n    rrl->buckets[hash] = (window << 3) | (count + 1);', '    rrl->buckets[hash]++;', expect=0)

# ---- E09: taken off a queue and lost ----
LIM = "libhttp/limit.c"; CHK = "libhttp/chunked.c"; CON = "libduv/concat.c"; PAS = "libduv/passthru.c"; USR = "libcitm/user.c"
mut("E09", IM, "        link_list_append(&m->relays_sent, link);\n", "        link_list_append_list(&m->relays_sent, link);\n")
mut("E09", CON, "        link_list_prepend(&c->reads, &c->returned->link);\n", "        link_list_prepend_list(&c->reads, &c->returned->link);\n")
mut("E09", PAS, """            // return mem to pool
            link_list_append(&p->pool, &mem->link);
            // return req to the front of pending
            link_list_prepend(&p->writes.pending, &req->link);
            goto closing;
        }
        // submit""", """            // return req to the front of pending
            link_list_prepend(&p->writes.pending, &req->link);
            goto closing;
        }
        // submit""")
mut("E09", PAS, """    // successful read
    link_t *link = link_list_pop_first(&p->reads);
    stream_read_t *read = CONTAINER_OF(link, stream_read_t, link);

""", """    // successful read
    link_t *link = link_list_pop_first(&p->reads);
    stream_read_t *read = CONTAINER_OF(link, stream_read_t, link);
    if(p->shutdown_cb && nread == 0) return;

""")
mut("E09", LIM, """            read->buf.len = 0;
            read->cb(&l->iface, read, read->buf);
            // try""", """            read->buf.len = 0;
            // try""")
mut("E09", SCC, """    link_t *link = link_list_pop_first(&sc->cmds);
    if(!link) return true;

    imap_cmd_t""", """    link_t *link = link_list_pop_first(&sc->cmds);
    if(!link) return true;
    if(!sc->up_active) return true;

    imap_cmd_t""")
mut("E09", DN, """                link_remove(&update->link);
                PROP_GO(&e, gather_update_expunge(dn, gather, update), cu);""", """                link_remove(&update->link);
                if(!dn->views.size) break;
                PROP_GO(&e, gather_update_expunge(dn, gather, update), cu);""")
mut("E09", SCC, """    link_t *link = link_list_pop_first(&sc->cmds);
    if(!link) return true;

    imap_cmd_t *cmd = CONTAINER_OF(link, imap_cmd_t, link);
    imap_client_must_write(sc->c, &sc->cwrite, cmd, cwrite_cb);
    sc->writing_up = true;
    return false;""", """    if(link_list_isempty(&sc->cmds)) return true;
    sc->writing_up = true;
    imap_cmd_t *cmd = CONTAINER_OF(
        link_list_pop_first(&sc->cmds), imap_cmd_t, link
    );
    imap_client_must_write(sc->c, &sc->cwrite, cmd, cwrite_cb);
    return false;""", expect=0)

# ---- E06: used after release or hand-over ----
mut("E06", DN, """        PROP_GO(&e, index_to_seq_num(index, &seq_num), cu);
        PROP_GO(&e, send_expunge(dn, seq_num, &temp), cu);
    }

    // step 5""", """        PROP_GO(&e, index_to_seq_num(index, &seq_num), cu);
        PROP_GO(&e, send_expunge(dn, seq_num, &temp), cu);
        if(view->length) break;
    }

    // step 5""")
mut("E06", USR, """    imap_resp_free(resp);
    return e;
}""", """    imap_resp_free(resp);
    if(is_error(e) && !*ok) LOG_ERROR("bad response: %x\\n", FIRESP(resp));
    return e;
}""")
mut("E06", USR, """        sc_free(sc);
    }
    free(u);
    return e;""", """        sc_free(sc);
        if(sc->dn_active) break;
    }
    free(u);
    return e;""")
mut("E06", USR, """        sc_free(sc);
    }
    free(u);
    return e;""", """        sc_free(sc);
    }
    free(u);
    LOG_ERROR("could not start user %x\\n", FD_DBG(u->user));
    return e;""")
mut("E06", "libcrypto/crypto.c", """    while((link = link_list_pop_first(&copies))){
        keypair_t *_kp = CONTAINER_OF(link, keypair_t, link);
        keypair_free(&_kp);
    }
    keypair_free(&ours);
    return e;""", """    while((link = link_list_pop_first(&copies))){
        keypair_t *_kp = CONTAINER_OF(link, keypair_t, link);
        keypair_free(&_kp);
    }
    keypair_free(&ours);
    link_remove(&ours->link);
    return e;""")
mut("E06", "libcrypto/crypto.c", """        keypair_free(&_kp);
    }
    keypair_free(&ours);
    return e;""", """        keypair_free(&_kp);
    }
    if(ours) keypair_free(&ours);
    if(ours) link_remove(&ours->link);
    return e;""", expect=0)

# ---- W01: events that are not acted on ----
mut("W01", PAS, "        // we may have just started failing, or may have been awaiting this write\n        advance_state(p);\n", "")
mut("W01", SCC, """    sc->reading_up = false;
    sc->resp = resp;
    schedule(sc);""", """    sc->reading_up = false;
    sc->resp = resp;
    if(!sc->writing_dn) schedule(sc);""")
mut("W01", SCC, """    sc->writing_up = false;
    schedule(sc);""", """    sc->writing_up = false;
    if(!link_list_isempty(&sc->cmds)) schedule(sc);""")
mut("W01", "libcitm/imap_client.c", """        TRACE_ORIG(&c->e, E_RESPONSE, "unexpected EOF from imap server");
    }
    schedule(c);""", """        TRACE_ORIG(&c->e, E_RESPONSE, "unexpected EOF from imap server");
        return;
    }
    schedule(c);""")
mut("W01", "libcitm/io_pair.c", """    io_pair->shutdown_done = true;
    schedule(io_pair);""", """    io_pair->shutdown_done = true;""")
mut("W01", "libduvtls/tls.c", """    // never callback immediately
    schedule(t);
}

static stream_await_cb duv_tls_await""", """}

static stream_await_cb duv_tls_await""")
mut("W01", "libcitm/uv_acme_manager.c", """        am_close_done(&uvam->am);
        schedule(uvam);
    }
}""", """        am_close_done(&uvam->am);
    }
}""", expect=0)
mut("W01", PAS, """        // that user cb may result in new writes
        advance_state(p);""", """        // that user cb may result in new writes
        if(!link_list_isempty(&p->writes.pending)) advance_state(p);""", expect=0)

CMP = "libcrypto/cmp.c"
mut("S03", CMP, "valid &= provided->data[i] == other->data[i];", "valid = valid && provided->data[i] == other->data[i];")
mut("S03", CMP, "bool valid = provided->len == secret->len;", "bool valid = provided->len <= secret->len;")
mut("S03", CMP, "valid &= provided->data[i] == other->data[i];", "valid = provided->data[i] == other->data[i];")
mut("S03", CMP, "i < provided->len; i++", "i + 1 < provided->len; i++")
mut("S03", CMP, """    bool valid = provided->len == secret->len;""", """    size_t diff = provided->len ^ secret->len;
    bool valid = diff == 0;""", 0)
mut("C01", CR, "ec->pkeys[ec->nkeys++] = kp->pair;", "if(kp->fingerprint->len == 0) continue; ec->pkeys[ec->nkeys++] = kp->pair;")
mut("C01", CR, """            ORIG(&e, E_FIXEDSIZE, "too many pubkeys to encrypt to");""", "            break;")
mut("C01", CR, "ec->pkeys[ec->nkeys++] = kp->pair;", "ec->pkeys[ec->nkeys] = kp->pair; ec->nkeys += 1;", 0)
mut("C02", CR, """                // start the decryption
                const EVP_CIPHER* type = CIPHER_TYPE;""", """                // start the decryption
                const EVP_CIPHER* type = EVP_aes_256_ctr();""")
