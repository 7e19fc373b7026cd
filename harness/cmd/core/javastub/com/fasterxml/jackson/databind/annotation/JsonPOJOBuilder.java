package com.fasterxml.jackson.databind.annotation;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.ANNOTATION_TYPE, ElementType.TYPE})
public @interface JsonPOJOBuilder {
    String buildMethodName() default "build"; String withPrefix() default "with";
}
