"""The documented structure of a schema (README, "Schema"), as JSON schemas."""

GRAPH = {'definitions': {'Graph': {'type': 'object',
                           'properties': {'name': {'type': 'string',
                                                   'pattern': '^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n'
                                                              ')$'},
                                          'description': {'type': 'string',
                                                          'pattern': '^[a-z]+.*\\.$'},
                                          'cpp': {'$ref': '#/definitions/Cpp'},
                                          'go': {'$ref': '#/definitions/Go'},
                                          'py': {'$ref': '#/definitions/Py'},
                                          'classes': {'type': 'array',
                                                      'items': {'$ref': '#/definitions/Class'}},
                                          'embeds': {'type': 'array',
                                                     'items': {'$ref': '#/definitions/Embed'}},
                                          'properties': {'type': 'object',
                                                         'additionalProperties': {'$ref': '#/definitions/Property'}}},
                           'required': ['name', 'description'],
                           'additionalProperties': False},
                 'Cpp': {'type': 'object',
                         'properties': {'namespace': {'type': 'string',
                                                      'pattern': '^[a-zA-Z][a-zA-Z0-9_]*(::[a-zA-Z][a-zA-Z0-9_]*)*(?!\n'
                                                                 ')$'},
                                        'path_as': {'type': 'string',
                                                    'enum': ['std::filesystem::path',
                                                             'boost::filesystem::path']},
                                        'optional_as': {'type': 'string',
                                                        'enum': ['boost::optional',
                                                                 'std::optional',
                                                                 'std::experimental::optional']},
                                        'datetime_library': {'type': 'string',
                                                             'enum': ['ctime',
                                                                      'date.h']},
                                        'indention': {'type': 'string',
                                                      'pattern': '^[ \t'
                                                                 ']*(?!\n'
                                                                 ')$'}},
                         'required': ['namespace',
                                      'path_as',
                                      'optional_as',
                                      'datetime_library'],
                         'additionalProperties': False},
                 'Go': {'type': 'object',
                        'properties': {'package': {'type': 'string',
                                                   'pattern': '^[a-zA-Z][a-zA-Z0-9_]*(?!\n'
                                                              ')$'}},
                        'required': ['package'],
                        'additionalProperties': False},
                 'Py': {'type': 'object',
                        'properties': {'module_name': {'type': 'string',
                                                       'pattern': '^[a-zA-Z][a-zA-Z0-9_]*(\\.[a-zA-Z][a-zA-Z0-9_]*)*(?!\\n)$'},
                                       'path_as': {'type': 'string',
                                                   'enum': ['str',
                                                            'pathlib.Path']},
                                       'timezone_as': {'type': 'string',
                                                       'enum': ['str',
                                                                'pytz.timezone']},
                                       'indention': {'type': 'string',
                                                     'pattern': '^[ \t]*(?!\n'
                                                                ')$'}},
                        'required': ['module_name', 'path_as', 'timezone_as'],
                        'additionalProperties': False},
                 'Class': {'type': 'object',
                           'properties': {'name': {'type': 'string',
                                                   'pattern': '^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n'
                                                              ')$'},
                                          'description': {'type': 'string',
                                                          'pattern': '^[a-z]+.*\\.$'},
                                          'plural': {'type': 'string',
                                                     'pattern': '^[A-Z]([a-zA-Z0-9_]*[a-zA-Z0-9])?(?!\n'
                                                                ')$'},
                                          'id_pattern': {'type': 'string'},
                                          'properties': {'type': 'object',
                                                         'additionalProperties': {'$ref': '#/definitions/Property'}}},
                           'required': ['name', 'description'],
                           'additionalProperties': False},
                 'Embed': {'type': 'object',
                           'properties': {'name': {'type': 'string',
                                                   'pattern': '^[A-Z]([A-Za-z0-9_]*[a-zA-Z0-9])?(?!\n'
                                                              ')$'},
                                          'description': {'type': 'string',
                                                          'pattern': '^[a-z]+.*\\.$'},
                                          'properties': {'type': 'object',
                                                         'additionalProperties': {'$ref': '#/definitions/Property'}}},
                           'required': ['name', 'description'],
                           'additionalProperties': False},
                 'Property': {'type': 'object',
                              'properties': {'description': {'type': 'string'},
                                             'type': {'type': 'string',
                                                      'pattern': '[A-Za-z][A-Za-z_0-9]*'},
                                             'json': {'type': 'string'},
                                             'optional': {'type': 'boolean'}},
                              'required': ['description', 'type'],
                              'additionalProperties': True}},
 '$ref': '#/definitions/Graph'}

TYPES = {'boolean': {'type': 'object',
             'properties': {'type': {'type': 'string'},
                            'description': {'type': 'string'}}},
 'integer': {'type': 'object',
             'properties': {'type': {'type': 'string'},
                            'description': {'type': 'string'},
                            'minimum': {'type': 'integer'},
                            'exclusive_minimum': {'type': 'boolean'},
                            'maximum': {'type': 'integer'},
                            'exclusive_maximum': {'type': 'boolean'}}},
 'float': {'type': 'object',
           'properties': {'type': {'type': 'string'},
                          'description': {'type': 'string'},
                          'minimum': {'type': 'number'},
                          'exclusive_minimum': {'type': 'boolean'},
                          'maximum': {'type': 'number'},
                          'exclusive_maximum': {'type': 'boolean'}}},
 'string': {'type': 'object',
            'properties': {'type': {'type': 'string'},
                           'description': {'type': 'string'},
                           'pattern': {'type': 'string'}}},
 'path': {'type': 'object',
          'properties': {'type': {'type': 'string'},
                         'description': {'type': 'string'},
                         'pattern': {'type': 'string'}}},
 'date': {'type': 'object',
          'properties': {'type': {'type': 'string'},
                         'description': {'type': 'string'},
                         'format': {'type': 'string'}}},
 'time': {'type': 'object',
          'properties': {'type': {'type': 'string'},
                         'description': {'type': 'string'},
                         'format': {'type': 'string'}}},
 'datetime': {'type': 'object',
              'properties': {'type': {'type': 'string'},
                             'description': {'type': 'string'},
                             'format': {'type': 'string'}}},
 'time_zone': {'type': 'object',
               'properties': {'type': {'type': 'string'},
                              'description': {'type': 'string'}}},
 'duration': {'type': 'object',
              'properties': {'type': {'type': 'string'},
                             'description': {'type': 'string'}}},
 'array': {'type': 'object',
           'properties': {'type': {'type': 'string'},
                          'description': {'type': 'string'},
                          'values': {'type': 'object'},
                          'minimum_size': {'type': 'integer', 'minimum': 0},
                          'maximum_size': {'type': 'integer', 'minimum': 0}},
           'required': ['values']},
 'map': {'type': 'object',
         'properties': {'type': {'type': 'string'},
                        'description': {'type': 'string'},
                        'values': {'type': 'object'}},
         'required': ['values']}}
