auth_entries! {
    e_auth_header_0 Header 0 false true true false;
    e_auth_header_0t Header 0 true true true false;
    e_auth_header_1 Header 1 false true true false;
    e_auth_header_1t Header 1 true true true false;
    e_auth_header_2 Header 2 false true true false;
    e_auth_header_2t Header 2 true true true false;
    e_auth_header_3 Header 3 false true true false;
    e_auth_header_3t Header 3 true true true false;
    e_auth_header_4 Header 4 false true true false;
    e_auth_header_4t Header 4 true true true false;
    e_auth_header_5 Header 5 false true true false;
    e_auth_header_5t Header 5 true true true false;
    e_auth_header_6 Header 6 false true true false;
    e_auth_header_6t Header 6 true true true false;
    e_auth_header_7 Header 7 false true true false;
    e_auth_header_7t Header 7 true true true false;
    e_auth_header_0_nononce Header 0 false false true false;
    e_auth_header_7t_nononce Header 7 true false true false;
    e_auth_header_0_notime Header 0 false true false false;
    e_auth_header_7t_notime Header 7 true true false false;
    e_auth_header_0_nononce_notime Header 0 false false false false;
    e_auth_header_7t_nononce_notime Header 7 true false false false;
    e_auth_header_7t_any Header 7 true true true true;
    e_auth_header_0_any Header 0 false true true true;
    e_auth_form_0 Form 0 false true true false;
    e_auth_form_0t Form 0 true true true false;
    e_auth_form_1 Form 1 false true true false;
    e_auth_form_1t Form 1 true true true false;
    e_auth_form_2 Form 2 false true true false;
    e_auth_form_2t Form 2 true true true false;
    e_auth_form_3 Form 3 false true true false;
    e_auth_form_3t Form 3 true true true false;
    e_auth_form_4 Form 4 false true true false;
    e_auth_form_4t Form 4 true true true false;
    e_auth_form_5 Form 5 false true true false;
    e_auth_form_5t Form 5 true true true false;
    e_auth_form_6 Form 6 false true true false;
    e_auth_form_6t Form 6 true true true false;
    e_auth_form_7 Form 7 false true true false;
    e_auth_form_7t Form 7 true true true false;
    e_auth_form_0_nononce Form 0 false false true false;
    e_auth_form_7t_nononce Form 7 true false true false;
    e_auth_form_0_notime Form 0 false true false false;
    e_auth_form_7t_notime Form 7 true true false false;
    e_auth_form_0_nononce_notime Form 0 false false false false;
    e_auth_form_7t_nononce_notime Form 7 true false false false;
    e_auth_form_7t_any Form 7 true true true true;
    e_auth_form_0_any Form 0 false true true true;
    e_auth_query_0 Query 0 false true true false;
    e_auth_query_0t Query 0 true true true false;
    e_auth_query_1 Query 1 false true true false;
    e_auth_query_1t Query 1 true true true false;
    e_auth_query_2 Query 2 false true true false;
    e_auth_query_2t Query 2 true true true false;
    e_auth_query_3 Query 3 false true true false;
    e_auth_query_3t Query 3 true true true false;
    e_auth_query_4 Query 4 false true true false;
    e_auth_query_4t Query 4 true true true false;
    e_auth_query_5 Query 5 false true true false;
    e_auth_query_5t Query 5 true true true false;
    e_auth_query_6 Query 6 false true true false;
    e_auth_query_6t Query 6 true true true false;
    e_auth_query_7 Query 7 false true true false;
    e_auth_query_7t Query 7 true true true false;
    e_auth_query_0_nononce Query 0 false false true false;
    e_auth_query_7t_nononce Query 7 true false true false;
    e_auth_query_0_notime Query 0 false true false false;
    e_auth_query_7t_notime Query 7 true true false false;
    e_auth_query_0_nononce_notime Query 0 false false false false;
    e_auth_query_7t_nononce_notime Query 7 true false false false;
    e_auth_query_7t_any Query 7 true true true true;
    e_auth_query_0_any Query 0 false true true true;
}
