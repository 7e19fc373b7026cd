package org.glassfish.jersey.jackson; public class JacksonFeature {}
