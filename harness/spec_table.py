"""What the specifications say about each message type (pinned; the oracle for P01-P09)."""
# name: {params: {member: (type, required, serializer, deserializer, null allowed)}, allowed, default}
SPEC = {'oidcmsg.oauth2:ASConfigurationResponse': {'params': {'error': ('str', False, '', '', False),
                                                       'error_description': ('str', False, '', '', False),
                                                       'error_uri': ('str', False, '', '', False),
                                                       'issuer': ('str', True, '', '', False),
                                                       'authorization_endpoint': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                       'token_endpoint': ('str', False, '', '', False),
                                                       'jwks_uri': ('str', False, '', '', False),
                                                       'registration_endpoint': ('str', False, '', '', False),
                                                       'scopes_supported': ('[str]',
                                                                            False,
                                                                            'list_serializer',
                                                                            'list_deserializer',
                                                                            False),
                                                       'response_types_supported': ('[str]',
                                                                                    True,
                                                                                    'list_serializer',
                                                                                    'list_deserializer',
                                                                                    False),
                                                       'response_modes_supported': ('[str]',
                                                                                    False,
                                                                                    'list_serializer',
                                                                                    'list_deserializer',
                                                                                    False),
                                                       'grant_types_supported': ('[str]',
                                                                                 True,
                                                                                 'list_serializer',
                                                                                 'list_deserializer',
                                                                                 False),
                                                       'token_endpoint_auth_methods_supported': ('[str]',
                                                                                                 False,
                                                                                                 'list_serializer',
                                                                                                 'list_deserializer',
                                                                                                 False),
                                                       'token_endpoint_auth_signing_alg_values_supported': ('[str]',
                                                                                                            False,
                                                                                                            'list_serializer',
                                                                                                            'list_deserializer',
                                                                                                            False),
                                                       'service_documentation': ('str', False, '', '', False),
                                                       'ui_locales_supported': ('[str]',
                                                                                False,
                                                                                'list_serializer',
                                                                                'list_deserializer',
                                                                                False),
                                                       'op_policy_uri': ('str', False, '', '', False),
                                                       'op_tos_uri': ('str', False, '', '', False),
                                                       'revocation_endpoint': ('str', False, '', '', False),
                                                       'introspection_endpoint': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False)},
                                            'allowed': {},
                                            'default': {'version': '3.0'}},
 'oidcmsg.oauth2:AccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                  'code': ('str', True, '', '', False),
                                                  'redirect_uri': ('str', True, '', '', False),
                                                  'client_id': ('str', False, '', '', False),
                                                  'client_secret': ('str', False, '', '', False),
                                                  'state': ('str', False, '', '', False)},
                                       'allowed': {},
                                       'default': {'grant_type': 'authorization_code'}},
 'oidcmsg.oauth2:AccessTokenResponse': {'params': {'error': ('str', False, '', '', False),
                                                   'error_description': ('str', False, '', '', False),
                                                   'error_uri': ('str', False, '', '', False),
                                                   'access_token': ('str', True, '', '', False),
                                                   'token_type': ('str', True, '', '', False),
                                                   'expires_in': ('int', False, '', '', False),
                                                   'refresh_token': ('str', False, '', '', False),
                                                   'scope': ('[str]',
                                                             False,
                                                             'sp_sep_list_serializer',
                                                             'sp_sep_list_deserializer',
                                                             False),
                                                   'state': ('str', False, '', '', False)},
                                        'allowed': {},
                                        'default': {}},
 'oidcmsg.oauth2:AuthorizationErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                          'error_description': ('str', False, '', '', False),
                                                          'error_uri': ('str', False, '', '', False),
                                                          'state': ('str', False, '', '', False)},
                                               'allowed': {'error': ['invalid_request', 'unauthorized_client', 'access_denied',
            'unsupported_response_type', 'invalid_scope', 'server_error', 'temporarily_unavailable']},
        'default': {}},
 'oidcmsg.oauth2:AuthorizationRequest': {'params': {'response_type': ('[str]',
                                                                      True,
                                                                      'sp_sep_list_serializer',
                                                                      'sp_sep_list_deserializer',
                                                                      False),
                                                    'client_id': ('str', True, '', '', False),
                                                    'scope': ('[str]',
                                                              False,
                                                              'sp_sep_list_serializer',
                                                              'sp_sep_list_deserializer',
                                                              False),
                                                    'redirect_uri': ('str', False, '', '', False),
                                                    'state': ('str', False, '', '', False)},
                                         'allowed': {},
                                         'default': {}},
 'oidcmsg.oauth2:AuthorizationResponse': {'params': {'error': ('str', False, '', '', False),
                                                     'error_description': ('str', False, '', '', False),
                                                     'error_uri': ('str', False, '', '', False),
                                                     'code': ('str', True, '', '', False),
                                                     'state': ('str', False, '', '', False),
                                                     'iss': ('str', False, '', '', False),
                                                     'client_id': ('str', False, '', '', False)},
                                          'allowed': {},
                                          'default': {}},
 'oidcmsg.oauth2:CCAccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                    'scope': ('[str]',
                                                              False,
                                                              'sp_sep_list_serializer',
                                                              'sp_sep_list_deserializer',
                                                              False)},
                                         'allowed': {'grant_type': ['client_credentials']},
                                         'default': {'grant_type': 'client_credentials'}},
 'oidcmsg.oauth2:JWTSecuredAuthorizationRequest': {'params': {'response_type': ('[str]',
                                                                                True,
                                                                                'sp_sep_list_serializer',
                                                                                'sp_sep_list_deserializer',
                                                                                False),
                                                              'client_id': ('str', True, '', '', False),
                                                              'scope': ('[str]',
                                                                        False,
                                                                        'sp_sep_list_serializer',
                                                                        'sp_sep_list_deserializer',
                                                                        False),
                                                              'redirect_uri': ('str', False, '', '', False),
                                                              'state': ('str', False, '', '', False),
                                                              'request': ('str', False, '', '', False),
                                                              'request_uri': ('str', False, '', '', False)},
                                                   'allowed': {},
                                                   'default': {}},
 'oidcmsg.oauth2:NoneResponse': {'params': {'error': ('str', False, '', '', False),
                                            'error_description': ('str', False, '', '', False),
                                            'error_uri': ('str', False, '', '', False),
                                            'state': ('str', False, '', '', False)},
                                 'allowed': {},
                                 'default': {}},
 'oidcmsg.oauth2:PushedAuthorizationRequest': {'params': {'response_type': ('[str]',
                                                                            True,
                                                                            'sp_sep_list_serializer',
                                                                            'sp_sep_list_deserializer',
                                                                            False),
                                                          'client_id': ('str', True, '', '', False),
                                                          'scope': ('[str]',
                                                                    False,
                                                                    'sp_sep_list_serializer',
                                                                    'sp_sep_list_deserializer',
                                                                    False),
                                                          'redirect_uri': ('str', False, '', '', False),
                                                          'state': ('str', False, '', '', False),
                                                          'request': ('str', False, '', '', False)},
                                               'allowed': {},
                                               'default': {}},
 'oidcmsg.oauth2:ROPCAccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                      'username': ('str', False, '', '', False),
                                                      'password': ('str', False, '', '', False),
                                                      'scope': ('[str]',
                                                                False,
                                                                'sp_sep_list_serializer',
                                                                'sp_sep_list_deserializer',
                                                                False)},
                                           'allowed': {},
                                           'default': {}},
 'oidcmsg.oauth2:RefreshAccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                         'refresh_token': ('str', True, '', '', False),
                                                         'scope': ('[str]',
                                                                   False,
                                                                   'sp_sep_list_serializer',
                                                                   'sp_sep_list_deserializer',
                                                                   False),
                                                         'client_id': ('str', False, '', '', False),
                                                         'client_secret': ('str', False, '', '', False)},
                                              'allowed': {'grant_type': ['refresh_token']},
                                              'default': {'grant_type': 'refresh_token'}},
 'oidcmsg.oauth2:ResourceRequest': {'params': {'access_token': ('str', False, '', '', False)},
                                    'allowed': {},
                                    'default': {}},
 'oidcmsg.oauth2:ResponseMessage': {'params': {'error': ('str', False, '', '', False),
                                               'error_description': ('str', False, '', '', False),
                                               'error_uri': ('str', False, '', '', False)},
                                    'allowed': {},
                                    'default': {}},
 'oidcmsg.oauth2:SecurityEventToken': {'params': {'iss': ('str', True, '', '', False),
                                                  'iat': ('int', True, '', '', False),
                                                  'jti': ('str', True, '', '', False),
                                                  'aud': ('[str]',
                                                          False,
                                                          'list_serializer',
                                                          'list_deserializer',
                                                          False),
                                                  'sub': ('str', False, '', '', False),
                                                  'exp': ('int', False, '', '', False),
                                                  'events': ('dict',
                                                             False,
                                                             'json_serializer',
                                                             'json_deserializer',
                                                             False),
                                                  'txt': ('str', False, '', '', False),
                                                  'toe': ('int', False, '', '', False)},
                                       'allowed': {},
                                       'default': {}},
 'oidcmsg.oauth2:TokenErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                  'error_description': ('str', False, '', '', False),
                                                  'error_uri': ('str', False, '', '', False)},
                                       'allowed': {'error': ['invalid_request',
                                                             'invalid_client',
                                                             'invalid_grant',
                                                             'unauthorized_client',
                                                             'unsupported_grant_type',
                                                             'invalid_scope']},
                                       'default': {}},
 'oidcmsg.oauth2:TokenExchangeRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                    'resource': ('[str]',
                                                                 False,
                                                                 'list_serializer',
                                                                 'list_deserializer',
                                                                 False),
                                                    'audience': ('[str]',
                                                                 False,
                                                                 'list_serializer',
                                                                 'list_deserializer',
                                                                 False),
                                                    'scope': ('[str]',
                                                              False,
                                                              'sp_sep_list_serializer',
                                                              'sp_sep_list_deserializer',
                                                              False),
                                                    'requested_token_type': ('str', False, '', '', False),
                                                    'subject_token': ('str', True, '', '', False),
                                                    'subject_token_type': ('str', True, '', '', False),
                                                    'actor_token': ('str', False, '', '', False),
                                                    'actor_token_type': ('str', False, '', '', False)},
                                         'allowed': {},
                                         'default': {}},
 'oidcmsg.oauth2:TokenExchangeResponse': {'params': {'access_token': ('str', True, '', '', False),
                                                     'issued_token_type': ('str', True, '', '', False),
                                                     'token_type': ('str', True, '', '', False),
                                                     'expires_in': ('int', False, '', '', False),
                                                     'refresh_token': ('str', False, '', '', False),
                                                     'scope': ('[str]',
                                                               False,
                                                               'sp_sep_list_serializer',
                                                               'sp_sep_list_deserializer',
                                                               False)},
                                          'allowed': {},
                                          'default': {}},
 'oidcmsg.oauth2:TokenIntrospectionRequest': {'params': {'token': ('str', True, '', '', False),
                                                         'token_type_hint': ('str', False, '', '', False),
                                                         'client_id': ('str', False, '', '', False),
                                                         'client_assertion_type': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                         'client_assertion': ('str', False, '', '', False)},
                                              'allowed': {},
                                              'default': {}},
 'oidcmsg.oauth2:TokenIntrospectionResponse': {'params': {'active': ('bool', True, '', '', False),
                                                          'scope': ('[str]',
                                                                    False,
                                                                    'sp_sep_list_serializer',
                                                                    'sp_sep_list_deserializer',
                                                                    False),
                                                          'client_id': ('str', False, '', '', False),
                                                          'username': ('str', False, '', '', False),
                                                          'token_type': ('str', False, '', '', False),
                                                          'exp': ('int', False, '', '', False),
                                                          'iat': ('int', False, '', '', False),
                                                          'nbf': ('int', False, '', '', False),
                                                          'sub': ('str', False, '', '', False),
                                                          'aud': ('[str]',
                                                                  False,
                                                                  'list_serializer',
                                                                  'list_deserializer',
                                                                  False),
                                                          'iss': ('str', False, '', '', False),
                                                          'jti': ('str', False, '', '', False)},
                                               'allowed': {},
                                               'default': {}},
 'oidcmsg.oauth2.device_authorization:AccessTokenRequest': {'params': {'grant_type': ('str',
                                                                                      True,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                                       'code': ('str', True, '', '', False),
                                                                       'redirect_uri': ('str',
                                                                                        True,
                                                                                        '',
                                                                                        '',
                                                                                        False),
                                                                       'client_id': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                                       'client_secret': ('str',
                                                                                         False,
                                                                                         '',
                                                                                         '',
                                                                                         False),
                                                                       'state': ('str', False, '', '', False),
                                                                       'client_assertion_type': ('str',
                                                                                                 False,
                                                                                                 '',
                                                                                                 '',
                                                                                                 False),
                                                                       'client_assertion': ('str',
                                                                                            False,
                                                                                            '',
                                                                                            '',
                                                                                            False)},
                                                            'allowed': {'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer']},
                                                            'default': {'grant_type': 'authorization_code'}},
 'oidcmsg.oauth2.device_authorization:AuthorizationRequest': {'params': {'client_id': ('str',
                                                                                       True,
                                                                                       '',
                                                                                       '',
                                                                                       False),
                                                                         'scope': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False)},
                                                              'allowed': {},
                                                              'default': {}},
 'oidcmsg.oauth2.device_authorization:AuthorizationResponse': {'params': {'device_code': ('str',
                                                                                          True,
                                                                                          '',
                                                                                          '',
                                                                                          False),
                                                                          'user_code': ('str',
                                                                                        True,
                                                                                        '',
                                                                                        '',
                                                                                        False),
                                                                          'verification_uri': ('str',
                                                                                               True,
                                                                                               '',
                                                                                               '',
                                                                                               False),
                                                                          'verification_uri_complete': ('str',
                                                                                                        False,
                                                                                                        '',
                                                                                                        '',
                                                                                                        False),
                                                                          'expires_in': ('int',
                                                                                         True,
                                                                                         '',
                                                                                         '',
                                                                                         False),
                                                                          'interval': ('int',
                                                                                       False,
                                                                                       '',
                                                                                       '',
                                                                                       False)},
                                                               'allowed': {},
                                                               'default': {}},
 'oidcmsg.oidc:AccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                'code': ('str', True, '', '', False),
                                                'redirect_uri': ('str', True, '', '', False),
                                                'client_id': ('str', False, '', '', False),
                                                'client_secret': ('str', False, '', '', False),
                                                'state': ('str', False, '', '', False),
                                                'client_assertion_type': ('str', False, '', '', False),
                                                'client_assertion': ('str', False, '', '', False)},
                                     'allowed': {'client_assertion_type': ['urn:ietf:params:oauth:client-assertion-type:jwt-bearer']},
                                     'default': {'grant_type': 'authorization_code'}},
 'oidcmsg.oidc:AccessTokenResponse': {'params': {'error': ('str', False, '', '', False),
                                                 'error_description': ('str', False, '', '', False),
                                                 'error_uri': ('str', False, '', '', False),
                                                 'access_token': ('str', True, '', '', False),
                                                 'token_type': ('str', True, '', '', False),
                                                 'expires_in': ('int', False, '', '', False),
                                                 'refresh_token': ('str', False, '', '', False),
                                                 'scope': ('[str]',
                                                           False,
                                                           'sp_sep_list_serializer',
                                                           'sp_sep_list_deserializer',
                                                           False),
                                                 'state': ('str', False, '', '', False),
                                                 'id_token': ('str', False, '', '', False)},
                                      'allowed': {},
                                      'default': {}},
 'oidcmsg.oidc:AddressClaim': {'params': {'formatted': ('str', False, '', '', False),
                                          'street_address': ('str', False, '', '', False),
                                          'locality': ('str', False, '', '', False),
                                          'region': ('str', False, '', '', False),
                                          'postal_code': ('str', False, '', '', False),
                                          'country': ('str', False, '', '', False)},
                               'allowed': {},
                               'default': {}},
 'oidcmsg.oidc:AuthnToken': {'params': {'iss': ('str', True, '', '', False),
                                        'sub': ('str', True, '', '', False),
                                        'aud': ('[str]', True, 'list_serializer', 'list_deserializer', False),
                                        'jti': ('str', True, '', '', False),
                                        'exp': ('int', True, '', '', False),
                                        'iat': ('int', False, '', '', False)},
                             'allowed': {},
                             'default': {}},
 'oidcmsg.oidc:AuthorizationErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                        'error_description': ('str', False, '', '', False),
                                                        'error_uri': ('str', False, '', '', False),
                                                        'state': ('str', False, '', '', False)},
                                             'allowed': {'error': ['invalid_request',
                                                                   'unauthorized_client',
                                                                   'access_denied',
                                                                   'unsupported_response_type',
                                                                   'invalid_scope',
                                                                   'server_error',
                                                                   'temporarily_unavailable',
                                                                   'interaction_required',
                                                                   'login_required',
                                                                   'session_selection_required',
                                                                   'consent_required',
                                                                   'invalid_request_uri',
                                                                   'invalid_request_object',
                                                                   'registration_not_supported',
                                                                   'request_not_supported',
                                                                   'request_uri_not_supported']},
                                             'default': {}},
 'oidcmsg.oidc:AuthorizationRequest': {'params': {'response_type': ('[str]',
                                                                    True,
                                                                    'sp_sep_list_serializer',
                                                                    'sp_sep_list_deserializer',
                                                                    False),
                                                  'client_id': ('str', True, '', '', False),
                                                  'scope': ('[str]',
                                                            True,
                                                            'sp_sep_list_serializer',
                                                            'sp_sep_list_deserializer',
                                                            False),
                                                  'redirect_uri': ('str', True, '', '', False),
                                                  'state': ('str', False, '', '', False),
                                                  'nonce': ('str', False, '', '', False),
                                                  'display': ('str', False, '', '', False),
                                                  'prompt': ('[str]',
                                                             False,
                                                             'sp_sep_list_serializer',
                                                             'sp_sep_list_deserializer',
                                                             False),
                                                  'max_age': ('int', False, '', '', False),
                                                  'ui_locales': ('[str]',
                                                                 False,
                                                                 'sp_sep_list_serializer',
                                                                 'sp_sep_list_deserializer',
                                                                 False),
                                                  'claims_locales': ('[str]',
                                                                     False,
                                                                     'sp_sep_list_serializer',
                                                                     'sp_sep_list_deserializer',
                                                                     False),
                                                  'id_token_hint': ('str', False, '', '', False),
                                                  'login_hint': ('str', False, '', '', False),
                                                  'acr_values': ('[str]',
                                                                 False,
                                                                 'sp_sep_list_serializer',
                                                                 'sp_sep_list_deserializer',
                                                                 False),
                                                  'claims': ('Message',
                                                             False,
                                                             'msg_ser_json',
                                                             'claims_request_deser',
                                                             False),
                                                  'registration': ('dict',
                                                                   False,
                                                                   'json_serializer',
                                                                   'json_deserializer',
                                                                   False),
                                                  'request': ('str', False, '', '', False),
                                                  'request_uri': ('str', False, '', '', False),
                                                  'response_mode': ('str', False, '', '', False)},
                                       'allowed': {'display': ['page', 'popup', 'touch', 'wap'],
                                                   'prompt': ['none', 'login', 'consent', 'select_account']},
                                       'default': {}},
 'oidcmsg.oidc:AuthorizationResponse': {'params': {'error': ('str', False, '', '', False),
                                                   'error_description': ('str', False, '', '', False),
                                                   'error_uri': ('str', False, '', '', False),
                                                   'code': ('str', False, '', '', False),
                                                   'state': ('str', False, '', '', False),
                                                   'iss': ('str', False, '', '', False),
                                                   'client_id': ('str', False, '', '', False),
                                                   'access_token': ('str', False, '', '', False),
                                                   'token_type': ('str', False, '', '', False),
                                                   'expires_in': ('int', False, '', '', False),
                                                   'refresh_token': ('str', False, '', '', False),
                                                   'scope': ('[str]',
                                                             False,
                                                             'sp_sep_list_serializer',
                                                             'sp_sep_list_deserializer',
                                                             False),
                                                   'id_token': ('Message', False, 'msg_ser', '', False),
                                                   'session_state': ('str', False, '', '', False)},
                                        'allowed': {},
                                        'default': {}},
 'oidcmsg.oidc:Claims': {'params': {}, 'allowed': {}, 'default': {}},
 'oidcmsg.oidc:ClaimsRequest': {'params': {'userinfo': ('Message',
                                                        False,
                                                        'claims_ser',
                                                        'claims_deser',
                                                        False),
                                           'id_token': ('Message',
                                                        False,
                                                        'claims_ser',
                                                        'claims_deser',
                                                        False)},
                                'allowed': {},
                                'default': {}},
 'oidcmsg.oidc:ClientRegistrationErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                             'error_description': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                             'error_uri': ('str', False, '', '', False)},
                                                  'allowed': {'error': ['invalid_redirect_uri',
                                                                        'invalid_client_metadata',
                                                                        'invalid_configuration_parameter']},
                                                  'default': {}},
 'oidcmsg.oidc:DiscoveryRequest': {'params': {'resource': ('str', True, '', '', False),
                                              'rel': ('str', True, '', '', False)},
                                   'allowed': {},
                                   'default': {}},
 'oidcmsg.oidc:IdToken': {'params': {'error': ('str', False, '', '', False),
                                     'error_description': ('str', False, '', '', False),
                                     'error_uri': ('str', False, '', '', False),
                                     'sub': ('str', True, '', '', False),
                                     'name': ('str', False, '', '', False),
                                     'given_name': ('str', False, '', '', False),
                                     'family_name': ('str', False, '', '', False),
                                     'middle_name': ('str', False, '', '', False),
                                     'nickname': ('str', False, '', '', False),
                                     'preferred_username': ('str', False, '', '', False),
                                     'profile': ('str', False, '', '', False),
                                     'picture': ('str', False, '', '', False),
                                     'website': ('str', False, '', '', False),
                                     'email': ('str', False, '', '', False),
                                     'email_verified': ('bool', False, '', '', False),
                                     'gender': ('str', False, '', '', False),
                                     'birthdate': ('str', False, '', '', False),
                                     'zoneinfo': ('str', False, '', '', False),
                                     'locale': ('str', False, '', '', False),
                                     'phone_number': ('str', False, '', '', False),
                                     'phone_number_verified': ('bool', False, '', '', False),
                                     'address': ('Message', False, 'msg_ser', 'address_deser', False),
                                     'updated_at': ('int', False, '', '', False),
                                     '_claim_names': ('Message', False, 'msg_ser', 'msg_deser', False),
                                     '_claim_sources': ('Message', False, 'msg_ser', 'msg_deser', False),
                                     'iss': ('str', True, '', '', False),
                                     'aud': ('[str]', True, 'list_serializer', 'list_deserializer', False),
                                     'exp': ('int', True, '', '', False),
                                     'iat': ('int', True, '', '', False),
                                     'auth_time': ('int', False, '', '', False),
                                     'nonce': ('str', False, '', '', False),
                                     'at_hash': ('str', False, '', '', False),
                                     'c_hash': ('str', False, '', '', False),
                                     'acr': ('str', False, '', '', False),
                                     'amr': ('[str]', False, 'list_serializer', 'list_deserializer', False),
                                     'azp': ('str', False, '', '', False),
                                     'sub_jwk': ('str', False, '', '', False),
                                     'sid': ('str', False, '', '', False)},
                          'allowed': {},
                          'default': {}},
 'oidcmsg.oidc:JRD': {'params': {'subject': ('str', False, '', '', False),
                                 'aliases': ('[str]', False, 'list_serializer', 'list_deserializer', False),
                                 'properties': ('dict', False, 'msg_ser_json', 'json_deserializer', False),
                                 'links': ('[Link]', True, 'link_list_ser', 'link_deser', False)},
                      'allowed': {},
                      'default': {}},
 'oidcmsg.oidc:JsonWebToken': {'params': {'iss': ('str', False, '', '', False),
                                          'sub': ('str', False, '', '', False),
                                          'aud': ('[str]',
                                                  False,
                                                  'list_serializer',
                                                  'list_deserializer',
                                                  False),
                                          'exp': ('int', False, '', '', False),
                                          'nbf': ('int', False, '', '', False),
                                          'iat': ('int', False, '', '', False),
                                          'jti': ('str', False, '', '', False)},
                               'allowed': {},
                               'default': {}},
 'oidcmsg.oidc:Link': {'params': {'rel': ('str', True, '', '', False),
                                  'type': ('str', False, '', '', False),
                                  'href': ('str', False, '', '', False),
                                  'titles': ('dict', False, 'msg_ser_json', 'json_deserializer', False),
                                  'properties': ('dict', False, 'msg_ser_json', 'json_deserializer', False)},
                       'allowed': {},
                       'default': {}},
 'oidcmsg.oidc:MessageWithIdToken': {'params': {'id_token': ('Message', True, 'msg_ser', '', False)},
                                     'allowed': {},
                                     'default': {}},
 'oidcmsg.oidc:OpenIDRequest': {'params': {'response_type': ('[str]',
                                                             True,
                                                             'sp_sep_list_serializer',
                                                             'sp_sep_list_deserializer',
                                                             False),
                                           'client_id': ('str', True, '', '', False),
                                           'scope': ('[str]',
                                                     True,
                                                     'sp_sep_list_serializer',
                                                     'sp_sep_list_deserializer',
                                                     False),
                                           'redirect_uri': ('str', True, '', '', False),
                                           'state': ('str', False, '', '', False),
                                           'nonce': ('str', False, '', '', False),
                                           'display': ('str', False, '', '', False),
                                           'prompt': ('[str]',
                                                      False,
                                                      'sp_sep_list_serializer',
                                                      'sp_sep_list_deserializer',
                                                      False),
                                           'max_age': ('int', False, '', '', False),
                                           'ui_locales': ('[str]',
                                                          False,
                                                          'sp_sep_list_serializer',
                                                          'sp_sep_list_deserializer',
                                                          False),
                                           'claims_locales': ('[str]',
                                                              False,
                                                              'sp_sep_list_serializer',
                                                              'sp_sep_list_deserializer',
                                                              False),
                                           'id_token_hint': ('str', False, '', '', False),
                                           'login_hint': ('str', False, '', '', False),
                                           'acr_values': ('[str]',
                                                          False,
                                                          'sp_sep_list_serializer',
                                                          'sp_sep_list_deserializer',
                                                          False),
                                           'claims': ('Message',
                                                      False,
                                                      'msg_ser_json',
                                                      'claims_request_deser',
                                                      False),
                                           'registration': ('dict',
                                                            False,
                                                            'json_serializer',
                                                            'json_deserializer',
                                                            False),
                                           'request': ('str', False, '', '', False),
                                           'request_uri': ('str', False, '', '', False),
                                           'response_mode': ('str', False, '', '', False)},
                                'allowed': {'display': ['page', 'popup', 'touch', 'wap'],
                                            'prompt': ['none', 'login', 'consent', 'select_account']},
                                'default': {}},
 'oidcmsg.oidc:OpenIDSchema': {'params': {'error': ('str', False, '', '', False),
                                          'error_description': ('str', False, '', '', False),
                                          'error_uri': ('str', False, '', '', False),
                                          'sub': ('str', True, '', '', False),
                                          'name': ('str', False, '', '', False),
                                          'given_name': ('str', False, '', '', False),
                                          'family_name': ('str', False, '', '', False),
                                          'middle_name': ('str', False, '', '', False),
                                          'nickname': ('str', False, '', '', False),
                                          'preferred_username': ('str', False, '', '', False),
                                          'profile': ('str', False, '', '', False),
                                          'picture': ('str', False, '', '', False),
                                          'website': ('str', False, '', '', False),
                                          'email': ('str', False, '', '', False),
                                          'email_verified': ('bool', False, '', '', False),
                                          'gender': ('str', False, '', '', False),
                                          'birthdate': ('str', False, '', '', False),
                                          'zoneinfo': ('str', False, '', '', False),
                                          'locale': ('str', False, '', '', False),
                                          'phone_number': ('str', False, '', '', False),
                                          'phone_number_verified': ('bool', False, '', '', False),
                                          'address': ('Message', False, 'msg_ser', 'address_deser', False),
                                          'updated_at': ('int', False, '', '', False),
                                          '_claim_names': ('Message', False, 'msg_ser', 'msg_deser', False),
                                          '_claim_sources': ('Message',
                                                             False,
                                                             'msg_ser',
                                                             'msg_deser',
                                                             False)},
                               'allowed': {},
                               'default': {}},
 'oidcmsg.oidc:ProviderConfigurationResponse': {'params': {'error': ('str', False, '', '', False),
                                                           'error_description': ('str', False, '', '', False),
                                                           'error_uri': ('str', False, '', '', False),
                                                           'issuer': ('str', True, '', '', False),
                                                           'authorization_endpoint': ('str',
                                                                                      True,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                           'token_endpoint': ('str', False, '', '', False),
                                                           'userinfo_endpoint': ('str', False, '', '', False),
                                                           'jwks_uri': ('str', True, '', '', False),
                                                           'registration_endpoint': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                           'scopes_supported': ('[str]',
                                                                                False,
                                                                                'list_serializer',
                                                                                'list_deserializer',
                                                                                False),
                                                           'response_types_supported': ('[str]',
                                                                                        True,
                                                                                        'list_serializer',
                                                                                        'list_deserializer',
                                                                                        False),
                                                           'response_modes_supported': ('[str]',
                                                                                        False,
                                                                                        'list_serializer',
                                                                                        'list_deserializer',
                                                                                        False),
                                                           'grant_types_supported': ('[str]',
                                                                                     False,
                                                                                     'list_serializer',
                                                                                     'list_deserializer',
                                                                                     False),
                                                           'acr_values_supported': ('[str]',
                                                                                    False,
                                                                                    'list_serializer',
                                                                                    'list_deserializer',
                                                                                    False),
                                                           'subject_types_supported': ('[str]',
                                                                                       True,
                                                                                       'list_serializer',
                                                                                       'list_deserializer',
                                                                                       False),
                                                           'id_token_signing_alg_values_supported': ('[str]',
                                                                                                     True,
                                                                                                     'list_serializer',
                                                                                                     'list_deserializer',
                                                                                                     False),
                                                           'id_token_encryption_alg_values_supported': ('[str]',
                                                                                                        False,
                                                                                                        'list_serializer',
                                                                                                        'list_deserializer',
                                                                                                        False),
                                                           'id_token_encryption_enc_values_supported': ('[str]',
                                                                                                        False,
                                                                                                        'list_serializer',
                                                                                                        'list_deserializer',
                                                                                                        False),
                                                           'userinfo_signing_alg_values_supported': ('[str]',
                                                                                                     False,
                                                                                                     'list_serializer',
                                                                                                     'list_deserializer',
                                                                                                     False),
                                                           'userinfo_encryption_alg_values_supported': ('[str]',
                                                                                                        False,
                                                                                                        'list_serializer',
                                                                                                        'list_deserializer',
                                                                                                        False),
                                                           'userinfo_encryption_enc_values_supported': ('[str]',
                                                                                                        False,
                                                                                                        'list_serializer',
                                                                                                        'list_deserializer',
                                                                                                        False),
                                                           'request_object_signing_alg_values_supported': ('[str]',
                                                                                                           False,
                                                                                                           'list_serializer',
                                                                                                           'list_deserializer',
                                                                                                           False),
                                                           'request_object_encryption_alg_values_supported': ('[str]',
                                                                                                              False,
                                                                                                              'list_serializer',
                                                                                                              'list_deserializer',
                                                                                                              False),
                                                           'request_object_encryption_enc_values_supported': ('[str]',
                                                                                                              False,
                                                                                                              'list_serializer',
                                                                                                              'list_deserializer',
                                                                                                              False),
                                                           'token_endpoint_auth_methods_supported': ('[str]',
                                                                                                     False,
                                                                                                     'list_serializer',
                                                                                                     'list_deserializer',
                                                                                                     False),
                                                           'token_endpoint_auth_signing_alg_values_supported': ('[str]',
                                                                                                                False,
                                                                                                                'list_serializer',
                                                                                                                'list_deserializer',
                                                                                                                False),
                                                           'display_values_supported': ('[str]',
                                                                                        False,
                                                                                        'list_serializer',
                                                                                        'list_deserializer',
                                                                                        False),
                                                           'claim_types_supported': ('[str]',
                                                                                     False,
                                                                                     'list_serializer',
                                                                                     'list_deserializer',
                                                                                     False),
                                                           'claims_supported': ('[str]',
                                                                                False,
                                                                                'list_serializer',
                                                                                'list_deserializer',
                                                                                False),
                                                           'service_documentation': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                           'claims_locales_supported': ('[str]',
                                                                                        False,
                                                                                        'list_serializer',
                                                                                        'list_deserializer',
                                                                                        False),
                                                           'ui_locales_supported': ('[str]',
                                                                                    False,
                                                                                    'list_serializer',
                                                                                    'list_deserializer',
                                                                                    False),
                                                           'claims_parameter_supported': ('bool',
                                                                                          False,
                                                                                          '',
                                                                                          '',
                                                                                          False),
                                                           'request_parameter_supported': ('bool',
                                                                                           False,
                                                                                           '',
                                                                                           '',
                                                                                           False),
                                                           'request_uri_parameter_supported': ('bool',
                                                                                               False,
                                                                                               '',
                                                                                               '',
                                                                                               False),
                                                           'require_request_uri_registration': ('bool',
                                                                                                False,
                                                                                                '',
                                                                                                '',
                                                                                                False),
                                                           'op_policy_uri': ('str', False, '', '', False),
                                                           'op_tos_uri': ('str', False, '', '', False),
                                                           'check_session_iframe': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                           'end_session_endpoint': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                           'frontchannel_logout_supported': ('bool',
                                                                                             False,
                                                                                             '',
                                                                                             '',
                                                                                             False),
                                                           'frontchannel_logout_session_supported': ('bool',
                                                                                                     False,
                                                                                                     '',
                                                                                                     '',
                                                                                                     False),
                                                           'backchannel_logout_supported': ('bool',
                                                                                            False,
                                                                                            '',
                                                                                            '',
                                                                                            False),
                                                           'backchannel_logout_session_supported': ('bool',
                                                                                                    False,
                                                                                                    '',
                                                                                                    '',
                                                                                                    False)},
                                                'allowed': {},
                                                'default': {'version': '3.0',
                                                            'token_endpoint_auth_methods_supported': ['client_secret_basic'],
                                                            'claims_parameter_supported': False,
                                                            'request_parameter_supported': False,
                                                            'request_uri_parameter_supported': True,
                                                            'require_request_uri_registration': True,
                                                            'grant_types_supported': ['authorization_code',
                                                                                      'implicit']}},
 'oidcmsg.oidc:RefreshAccessTokenRequest': {'params': {'grant_type': ('str', True, '', '', False),
                                                       'refresh_token': ('str', True, '', '', False),
                                                       'scope': ('[str]',
                                                                 False,
                                                                 'sp_sep_list_serializer',
                                                                 'sp_sep_list_deserializer',
                                                                 False),
                                                       'client_id': ('str', False, '', '', False),
                                                       'client_secret': ('str', False, '', '', False)},
                                            'allowed': {'grant_type': ['refresh_token']},
                                            'default': {'grant_type': 'refresh_token'}},
 'oidcmsg.oidc:RegistrationRequest': {'params': {'redirect_uris': ('[str]',
                                                                   True,
                                                                   'list_serializer',
                                                                   'list_deserializer',
                                                                   False),
                                                 'response_types': ('[str]',
                                                                    False,
                                                                    'list_serializer',
                                                                    'list_deserializer',
                                                                    False),
                                                 'grant_types': ('[str]',
                                                                 False,
                                                                 'list_serializer',
                                                                 'list_deserializer',
                                                                 False),
                                                 'application_type': ('str', False, '', '', False),
                                                 'contacts': ('[str]',
                                                              False,
                                                              'list_serializer',
                                                              'list_deserializer',
                                                              False),
                                                 'client_name': ('str', False, '', '', False),
                                                 'logo_uri': ('str', False, '', '', False),
                                                 'client_uri': ('str', False, '', '', False),
                                                 'policy_uri': ('str', False, '', '', False),
                                                 'tos_uri': ('str', False, '', '', False),
                                                 'jwks': ('dict', False, 'msg_ser_json', 'json_deserializer', False),
                                                 'jwks_uri': ('str', False, '', '', False),
                                                 'sector_identifier_uri': ('str', False, '', '', False),
                                                 'subject_type': ('str', False, '', '', False),
                                                 'id_token_signed_response_alg': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                 'id_token_encrypted_response_alg': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                 'id_token_encrypted_response_enc': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                 'userinfo_signed_response_alg': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                 'userinfo_encrypted_response_alg': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                 'userinfo_encrypted_response_enc': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                 'request_object_signing_alg': ('str', False, '', '', False),
                                                 'request_object_encryption_alg': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                 'request_object_encryption_enc': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                 'token_endpoint_auth_method': ('str', False, '', '', False),
                                                 'token_endpoint_auth_signing_alg': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                 'default_max_age': ('int', False, '', '', False),
                                                 'require_auth_time': ('bool', False, '', '', False),
                                                 'default_acr_values': ('[str]',
                                                                        False,
                                                                        'list_serializer',
                                                                        'list_deserializer',
                                                                        False),
                                                 'initiate_login_uri': ('str', False, '', '', False),
                                                 'request_uris': ('[str]',
                                                                  False,
                                                                  'list_serializer',
                                                                  'list_deserializer',
                                                                  False),
                                                 'post_logout_redirect_uris': ('[str]',
                                                                               False,
                                                                               'list_serializer',
                                                                               'list_deserializer',
                                                                               False),
                                                 'frontchannel_logout_uri': ('str', False, '', '', False),
                                                 'frontchannel_logout_session_required': ('bool',
                                                                                          False,
                                                                                          '',
                                                                                          '',
                                                                                          False),
                                                 'backchannel_logout_uri': ('str', False, '', '', False),
                                                 'backchannel_logout_session_supported': ('bool',
                                                                                          False,
                                                                                          '',
                                                                                          '',
                                                                                          False),
                                                 'federation_type': ('[str]',
                                                                     False,
                                                                     'list_serializer',
                                                                     'list_deserializer',
                                                                     False),
                                                 'organization_name': ('str', False, '', '', False)},
                                      'allowed': {'application_type': ['native', 'web'],
                                                  'subject_type': ['public', 'pairwise']},
                                      'default': {'application_type': 'web', 'response_types': ['code']}},
 'oidcmsg.oidc:RegistrationResponse': {'params': {'error': ('str', False, '', '', False),
                                                  'error_description': ('str', False, '', '', False),
                                                  'error_uri': ('str', False, '', '', False),
                                                  'client_id': ('str', True, '', '', False),
                                                  'client_secret': ('str', False, '', '', False),
                                                  'registration_access_token': ('str', False, '', '', False),
                                                  'registration_client_uri': ('str', False, '', '', False),
                                                  'client_id_issued_at': ('int', False, '', '', False),
                                                  'client_secret_expires_at': ('int', False, '', '', False),
                                                  'redirect_uris': ('[str]',
                                                                    True,
                                                                    'list_serializer',
                                                                    'list_deserializer',
                                                                    False),
                                                  'response_types': ('[str]',
                                                                     False,
                                                                     'list_serializer',
                                                                     'list_deserializer',
                                                                     False),
                                                  'grant_types': ('[str]',
                                                                  False,
                                                                  'list_serializer',
                                                                  'list_deserializer',
                                                                  False),
                                                  'application_type': ('str', False, '', '', False),
                                                  'contacts': ('[str]',
                                                               False,
                                                               'list_serializer',
                                                               'list_deserializer',
                                                               False),
                                                  'client_name': ('str', False, '', '', False),
                                                  'logo_uri': ('str', False, '', '', False),
                                                  'client_uri': ('str', False, '', '', False),
                                                  'policy_uri': ('str', False, '', '', False),
                                                  'tos_uri': ('str', False, '', '', False),
                                                  'jwks': ('dict',
                                                           False,
                                                           'msg_ser_json',
                                                           'json_deserializer',
                                                           False),
                                                  'jwks_uri': ('str', False, '', '', False),
                                                  'sector_identifier_uri': ('str', False, '', '', False),
                                                  'subject_type': ('str', False, '', '', False),
                                                  'id_token_signed_response_alg': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                  'id_token_encrypted_response_alg': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                  'id_token_encrypted_response_enc': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                  'userinfo_signed_response_alg': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                  'userinfo_encrypted_response_alg': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                  'userinfo_encrypted_response_enc': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                  'request_object_signing_alg': ('str', False, '', '', False),
                                                  'request_object_encryption_alg': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                  'request_object_encryption_enc': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                  'token_endpoint_auth_method': ('str', False, '', '', False),
                                                  'token_endpoint_auth_signing_alg': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                  'default_max_age': ('int', False, '', '', False),
                                                  'require_auth_time': ('bool', False, '', '', False),
                                                  'default_acr_values': ('[str]',
                                                                         False,
                                                                         'list_serializer',
                                                                         'list_deserializer',
                                                                         False),
                                                  'initiate_login_uri': ('str', False, '', '', False),
                                                  'request_uris': ('[str]',
                                                                   False,
                                                                   'list_serializer',
                                                                   'list_deserializer',
                                                                   False),
                                                  'post_logout_redirect_uris': ('[str]',
                                                                                False,
                                                                                'list_serializer',
                                                                                'list_deserializer',
                                                                                False),
                                                  'frontchannel_logout_uri': ('str', False, '', '', False),
                                                  'frontchannel_logout_session_required': ('bool',
                                                                                           False,
                                                                                           '',
                                                                                           '',
                                                                                           False),
                                                  'backchannel_logout_uri': ('str', False, '', '', False),
                                                  'backchannel_logout_session_supported': ('bool',
                                                                                           False,
                                                                                           '',
                                                                                           '',
                                                                                           False),
                                                  'federation_type': ('[str]',
                                                                      False,
                                                                      'list_serializer',
                                                                      'list_deserializer',
                                                                      False),
                                                  'organization_name': ('str', False, '', '', False)},
                                       'allowed': {},
                                       'default': {}},
 'oidcmsg.oidc:ResourceRequest': {'params': {'access_token': ('str', False, '', '', False)},
                                  'allowed': {},
                                  'default': {}},
 'oidcmsg.oidc:TokenErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                'error_description': ('str', False, '', '', False),
                                                'error_uri': ('str', False, '', '', False)},
                                     'allowed': {'error': ['invalid_request',
                                                           'invalid_client',
                                                           'invalid_grant',
                                                           'unauthorized_client',
                                                           'unsupported_grant_type',
                                                           'invalid_scope']},
                                     'default': {}},
 'oidcmsg.oidc:UserInfoErrorResponse': {'params': {'error': ('str', False, '', '', False),
                                                   'error_description': ('str', False, '', '', False),
                                                   'error_uri': ('str', False, '', '', False)},
                                        'allowed': {'error': ['invalid_schema',
                                                              'invalid_request',
                                                              'invalid_token',
                                                              'insufficient_scope']},
                                        'default': {}},
 'oidcmsg.oidc:UserInfoRequest': {'params': {'access_token': ('str', False, '', '', False)},
                                  'allowed': {},
                                  'default': {}},
 'oidcmsg.oidc:WebFingerRequest': {'params': {'resource': ('str', True, '', '', False),
                                              'rel': ('str', True, '', '', False)},
                                   'allowed': {},
                                   'default': {'rel': 'http://openid.net/specs/connect/1.0/issuer'}},
 'oidcmsg.oidc.session:BackChannelLogoutRequest': {'params': {'logout_token': ('str', True, '', '', False)},
                                                   'allowed': {},
                                                   'default': {}},
 'oidcmsg.oidc.session:CheckIDRequest': {'params': {'access_token': ('str', True, '', '', False)},
                                         'allowed': {},
                                         'default': {}},
 'oidcmsg.oidc.session:CheckSessionRequest': {'params': {'id_token': ('Message', True, 'msg_ser', '', False)},
                                              'allowed': {},
                                              'default': {}},
 'oidcmsg.oidc.session:EndSessionRequest': {'params': {'id_token_hint': ('Message',
                                                                         False,
                                                                         'msg_ser',
                                                                         '',
                                                                         False),
                                                       'post_logout_redirect_uri': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                       'state': ('str', False, '', '', False)},
                                            'allowed': {},
                                            'default': {}},
 'oidcmsg.oidc.session:EndSessionResponse': {'params': {'error': ('str', False, '', '', False),
                                                        'error_description': ('str', False, '', '', False),
                                                        'error_uri': ('str', False, '', '', False),
                                                        'state': ('str', False, '', '', False)},
                                             'allowed': {},
                                             'default': {}},
 'oidcmsg.oidc.session:LogoutToken': {'params': {'iss': ('str', True, '', '', False),
                                                 'sub': ('str', False, '', '', False),
                                                 'aud': ('[str]',
                                                         True,
                                                         'list_serializer',
                                                         'list_deserializer',
                                                         False),
                                                 'iat': ('int', True, '', '', False),
                                                 'jti': ('str', True, '', '', False),
                                                 'events': ('dict',
                                                            True,
                                                            'json_serializer',
                                                            'json_deserializer',
                                                            False),
                                                 'sid': ('str', False, '', '', False)},
                                      'allowed': {},
                                      'default': {}},
 'oidcmsg.oidc.session:RefreshSessionRequest': {'params': {'id_token': ('Message',
                                                                        True,
                                                                        'msg_ser',
                                                                        '',
                                                                        False),
                                                           'redirect_url': ('str', True, '', '', False),
                                                           'state': ('str', True, '', '', False)},
                                                'allowed': {},
                                                'default': {}},
 'oidcmsg.oidc.session:RefreshSessionResponse': {'params': {'id_token': ('Message',
                                                                         True,
                                                                         'msg_ser',
                                                                         '',
                                                                         False),
                                                            'error': ('str', False, '', '', False),
                                                            'error_description': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                            'error_uri': ('str', False, '', '', False),
                                                            'state': ('str', True, '', '', False)},
                                                 'allowed': {},
                                                 'default': {}},
 'oidcmsg.oidc.identity_assurance:Document': {'params': {'type': ('str', True, '', '', False),
                                                         'number': ('str', True, '', '', False),
                                                         'issuer': ('Issuer',
                                                                    True,
                                                                    'msg_ser',
                                                                    'issuer_deser',
                                                                    False),
                                                         'date_of_issuance': ('str',
                                                                              True,
                                                                              'time_stamp_ser',
                                                                              'time_stamp_deser',
                                                                              False),
                                                         'date_of_expiry': ('str',
                                                                            True,
                                                                            'time_stamp_ser',
                                                                            'time_stamp_deser',
                                                                            False)},
                                              'allowed': {},
                                              'default': {}},
 'oidcmsg.oidc.identity_assurance:Evidence': {'params': {'type': ('str', False, '', '', False)},
                                              'allowed': {},
                                              'default': {}},
 'oidcmsg.oidc.identity_assurance:IDAClaimsRequest': {'params': {'userinfo': ('Message',
                                                                              False,
                                                                              'claims_ser',
                                                                              'claims_deser',
                                                                              False),
                                                                 'id_token': ('Message',
                                                                              False,
                                                                              'claims_ser',
                                                                              'claims_deser',
                                                                              False)},
                                                      'allowed': {},
                                                      'default': {}},
 'oidcmsg.oidc.identity_assurance:IdDocument': {'params': {'type': ('str', False, '', '', False),
                                                           'method': ('str', True, '', '', False),
                                                           'verifier': ('Verifier',
                                                                        True,
                                                                        'msg_ser',
                                                                        'verifier_deser',
                                                                        False),
                                                           'time': ('str',
                                                                    False,
                                                                    'time_stamp_ser',
                                                                    'time_stamp_deser',
                                                                    False),
                                                           'document': ('Document',
                                                                        False,
                                                                        'msg_ser',
                                                                        'document_deser',
                                                                        False)},
                                                'allowed': {},
                                                'default': {}},
 'oidcmsg.oidc.identity_assurance:IdentityAssuranceClaims': {'params': {'error': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                                        'error_description': ('str',
                                                                                              False,
                                                                                              '',
                                                                                              '',
                                                                                              False),
                                                                        'error_uri': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                                        'sub': ('str', True, '', '', False),
                                                                        'name': ('str', False, '', '', False),
                                                                        'given_name': ('str',
                                                                                       False,
                                                                                       '',
                                                                                       '',
                                                                                       False),
                                                                        'family_name': ('str',
                                                                                        False,
                                                                                        '',
                                                                                        '',
                                                                                        False),
                                                                        'middle_name': ('str',
                                                                                        False,
                                                                                        '',
                                                                                        '',
                                                                                        False),
                                                                        'nickname': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                                        'preferred_username': ('str',
                                                                                               False,
                                                                                               '',
                                                                                               '',
                                                                                               False),
                                                                        'profile': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                                        'picture': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                                        'website': ('str',
                                                                                    False,
                                                                                    '',
                                                                                    '',
                                                                                    False),
                                                                        'email': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False),
                                                                        'email_verified': ('bool',
                                                                                           False,
                                                                                           '',
                                                                                           '',
                                                                                           False),
                                                                        'gender': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                                        'birthdate': ('str',
                                                                                      False,
                                                                                      '',
                                                                                      '',
                                                                                      False),
                                                                        'zoneinfo': ('str',
                                                                                     False,
                                                                                     '',
                                                                                     '',
                                                                                     False),
                                                                        'locale': ('str',
                                                                                   False,
                                                                                   '',
                                                                                   '',
                                                                                   False),
                                                                        'phone_number': ('str',
                                                                                         False,
                                                                                         '',
                                                                                         '',
                                                                                         False),
                                                                        'phone_number_verified': ('bool',
                                                                                                  False,
                                                                                                  '',
                                                                                                  '',
                                                                                                  False),
                                                                        'address': ('Message',
                                                                                    False,
                                                                                    'msg_ser',
                                                                                    'address_deser',
                                                                                    False),
                                                                        'updated_at': ('int',
                                                                                       False,
                                                                                       '',
                                                                                       '',
                                                                                       False),
                                                                        '_claim_names': ('Message',
                                                                                         False,
                                                                                         'msg_ser',
                                                                                         'msg_deser',
                                                                                         False),
                                                                        '_claim_sources': ('Message',
                                                                                           False,
                                                                                           'msg_ser',
                                                                                           'msg_deser',
                                                                                           False),
                                                                        'place_of_birth': ('dict',
                                                                                           False,
                                                                                           'json_serializer',
                                                                                           'json_deserializer',
                                                                                           False),
                                                                        'nationalities': ('str',
                                                                                          False,
                                                                                          '',
                                                                                          '',
                                                                                          False),
                                                                        'birth_family_name': ('str',
                                                                                              False,
                                                                                              '',
                                                                                              '',
                                                                                              False),
                                                                        'birth_given_name': ('str',
                                                                                             False,
                                                                                             '',
                                                                                             '',
                                                                                             False),
                                                                        'birth_middle_name': ('str',
                                                                                              False,
                                                                                              '',
                                                                                              '',
                                                                                              False),
                                                                        'salutation': ('str',
                                                                                       False,
                                                                                       '',
                                                                                       '',
                                                                                       False),
                                                                        'title': ('str',
                                                                                  False,
                                                                                  '',
                                                                                  '',
                                                                                  False)},
                                                             'allowed': {},
                                                             'default': {}},
 'oidcmsg.oidc.identity_assurance:Issuer': {'params': {'name': ('str', True, '', '', False),
                                                       'country': ('str', True, '', '', False)},
                                            'allowed': {},
                                            'default': {}},
 'oidcmsg.oidc.identity_assurance:PlaceOfBirth': {'params': {'country': ('str', True, '', '', False),
                                                             'region': ('str', False, '', '', False),
                                                             'locality': ('str', True, '', '', False)},
                                                  'allowed': {},
                                                  'default': {}},
 'oidcmsg.oidc.identity_assurance:Provider': {'params': {'formatted': ('str', False, '', '', False),
                                                         'street_address': ('str', False, '', '', False),
                                                         'locality': ('str', False, '', '', False),
                                                         'region': ('str', False, '', '', False),
                                                         'postal_code': ('str', False, '', '', False),
                                                         'country': ('str', False, '', '', False),
                                                         'name': ('str', False, '', '', False)},
                                              'allowed': {},
                                              'default': {}},
 'oidcmsg.oidc.identity_assurance:QES': {'params': {'type': ('str', False, '', '', False),
                                                    'issuer': ('str', True, '', '', False),
                                                    'serial_number': ('str', True, '', '', False),
                                                    'created_at': ('str',
                                                                   True,
                                                                   'time_stamp_ser',
                                                                   'time_stamp_deser',
                                                                   False)},
                                         'allowed': {},
                                         'default': {}},
 'oidcmsg.oidc.identity_assurance:UtilityBill': {'params': {'type': ('str', False, '', '', False),
                                                            'provider': ('Provider',
                                                                         True,
                                                                         'msg_ser',
                                                                         'provider_deser',
                                                                         False),
                                                            'date': ('str',
                                                                     False,
                                                                     'time_stamp_ser',
                                                                     'time_stamp_deser',
                                                                     False)},
                                                 'allowed': {},
                                                 'default': {}},
 'oidcmsg.oidc.identity_assurance:VerificationElement': {'params': {'trust_framework': ('str',
                                                                                        True,
                                                                                        '',
                                                                                        '',
                                                                                        False),
                                                                    'time': ('str',
                                                                             False,
                                                                             'time_stamp_ser',
                                                                             'time_stamp_deser',
                                                                             False),
                                                                    'verification_process': ('str',
                                                                                             False,
                                                                                             '',
                                                                                             '',
                                                                                             False),
                                                                    'evidence': ('[Evidence]',
                                                                                 False,
                                                                                 'msg_list_ser',
                                                                                 'evidence_list_deser',
                                                                                 True)},
                                                         'allowed': {},
                                                         'default': {}},
 'oidcmsg.oidc.identity_assurance:VerificationElementRequest': {'params': {'trust_framework': ('str',
                                                                                               True,
                                                                                               '',
                                                                                               '',
                                                                                               False),
                                                                           'time': ('str',
                                                                                    False,
                                                                                    'time_stamp_ser',
                                                                                    'time_stamp_deser',
                                                                                    False),
                                                                           'verification_process': ('str',
                                                                                                    False,
                                                                                                    '',
                                                                                                    '',
                                                                                                    False),
                                                                           'evidence': ('[Evidence]',
                                                                                        False,
                                                                                        'msg_list_ser',
                                                                                        'evidence_list_deser',
                                                                                        True)},
                                                                'allowed': {},
                                                                'default': {}},
 'oidcmsg.oidc.identity_assurance:VerifiedClaims': {'params': {'verification': ('VerificationElement',
                                                                                False,
                                                                                'msg_ser',
                                                                                'verification_element_deser',
                                                                                False),
                                                               'claims': ('IdentityAssuranceClaims',
                                                                          False,
                                                                          'msg_ser',
                                                                          'msg_deser',
                                                                          False)},
                                                    'allowed': {},
                                                    'default': {}},
 'oidcmsg.oidc.identity_assurance:VerifiedClaimsRequest': {'params': {'verification': ('Message',
                                                                                       False,
                                                                                       'msg_ser',
                                                                                       'msg_deser',
                                                                                       False),
                                                                      'claims': ('IdentityAssuranceClaims',
                                                                                 False,
                                                                                 'msg_ser',
                                                                                 'msg_deser',
                                                                                 False)},
                                                           'allowed': {},
                                                           'default': {}},
 'oidcmsg.oidc.identity_assurance:Verifier': {'params': {'organization': ('str', True, '', '', False),
                                                         'txn': ('str', True, '', '', False)},
                                              'allowed': {},
                                              'default': {}}}
